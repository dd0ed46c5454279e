"""property -> components that decide it, violation kinds that break it, technique, rule, assumptions"""
MEM = ['nullderef', 'userderef', 'uninit', 'uaf', 'oob', 'rowrite', 'badfree', 'doublefree', 'userfree', 'assert', 'ub']
ALL = MEM + ['post', 'room', 'hang']
AI = 'abstract interpretation of the LLVM IR'
BASE = ['clang 18 front end and mem2reg translate the sources faithfully', 'x86-64 little-endian data model', 'allocations succeed (the default reallocator aborts otherwise)']
PROPS = {
 'C01': dict(comps=['effects_'], kinds=['sysalloc'], technique='interprocedural call-graph and address-taken analysis of the linked IR',
             rule='From every public function, every path of the call graph (indirect calls resolved by address-taken signature) is closed over; reaching a libc allocator, or a libc function that allocates for its caller, other than from the default reallocator is a violation; every store to the hook variables outside the setters is one too.'),
 'C02': dict(comps=['effects_'], kinds=['hiddenstate'], technique='interprocedural effect analysis (mod/ref of globals) of the linked IR',
             rule='Every load and store in every function reachable from a public function is resolved to the globals it may touch; any mutable object with static storage duration other than the reallocator hooks, and any call of a libc function outside the stateless list, is a violation.'),
 'C03': dict(comps=['effects_'], kinds=['constwrite'], technique='interprocedural mod/ref effect analysis of pointer-to-const parameters',
             rule='For every pointer-to-const parameter of every public function, no store reachable from the function may write through a pointer derived from it.'),
 'C04': dict(comps=['fsalloc_'], kinds=ALL, technique=AI + ' against a recording reallocator',
             rule='fsalloc.c is analysed with a reallocator that records its calls in ghost state, for symbolic pointers and sizes over their whole ranges; every path of every function must show exactly the documented call sequence and result.'),
 'C05': dict(comps=['headers_'], kinds=['header'], technique='type-level witnesses and comparison of declarations with the definitions in the IR',
             rule='Witness translation units per header, per pair of headers and per smart-pointer helper must be accepted by the C and C++ front ends, and each declared function must have a definition of the same type in the library IR.'),
 'C06': dict(comps=['list_'], kinds=ALL, technique='shape analysis (' + AI + ' with doubly-linked list segments of symbolic length)',
             rule='Every list function is analysed from an arbitrary well-formed list, represented as segments of symbolic length and contents; afterwards the list must be well-formed and denote exactly the specified sequence.'),
 'C08': dict(comps=['avlsearch_'], kinds=ALL, technique=AI + ' on every balanced tree shape of bounded size, with symbolic keys and a symbolic position of the search key',
             rule='For every AVL shape up to the size bound (built through avl_tree_put, with uninterpreted keys in a fixed order), each search function is analysed with a key anywhere in the order - equal to, below, between or above the stored keys, as decided by the comparison callback - and must return exactly the specified neighbour; first/next and last/previous must enumerate the keys in order; the comparison callback checks its arguments and returns an arbitrary value of the right sign.',
             assume=['trees of at most 10 elements (13 in thorough) and sparse trees of 12']),
 'C09': dict(comps=['avl_'], kinds=ALL, technique=AI + ' with shape checking, from every balanced tree shape of bounded size',
             rule='From every AVL shape up to the size bound, with uninterpreted keys and values, every insertion position, replacement, detach, removal, pop and copy is analysed; afterwards the links, recorded balances, subtree heights, size and in-order contents must be exactly right, elements taken out must be intact, copies must be equal in shape and disjoint. Since the check starts from every well-formed tree of the sizes covered and re-establishes well-formedness, it covers operation sequences of any length within those sizes.',
             assume=['trees of at most 11 elements (14 in thorough) and the sparsest trees of 12 and 20']),
 'C10': dict(comps=['priorq_'], kinds=ALL, technique=AI + ' from an arbitrary heap of bounded size with a symbolic (uninterpreted) order and recorded relocation calls',
             rule='An arbitrary heap of n elements (the order constrained only by the heap property) is put together; each operation is analysed under every order the comparison callback can report; afterwards size, peek, the told locations and the stored elements must be right and the state must again be an array heap with every element at its told location (so the argument is inductive over histories), or else draining and removing at every told location must behave as specified.',
             assume=['queues of at most 10 elements (13 in thorough)']),
 'C11': dict(comps=['intset_'], kinds=ALL, technique=AI + ' with a bit-word domain: membership bits as uninterpreted, individually split booleans',
             rule='Sets of every size up to 200 (330 in thorough) with an arbitrary earlier history of memberships, and for element updates sets of every size up to INT_MAX, are analysed with symbolic elements; membership of a symbolic element before and after each operation must be related exactly as documented, the search results must be members (non-members) with none passed over, and no access may leave the storage.'),
 'C07': dict(comps=['hash_'], kinds=ALL, technique=AI + ' over operation histories with symbolic keys, uninterpreted hash and order, for symbolic slots',
             rule='Histories of up to two puts (three in thorough) followed by an arbitrary operation are analysed with symbolic keys and values, an uninterpreted hash function and an uninterpreted equality (every way the keys can coincide or collide); afterwards every observer - lookup of an arbitrary key, size, empty, full iteration - must agree with the abstract map, and destruction must release everything.'),
 'C12': dict(comps=['bytearray_'], kinds=ALL, technique=AI + ' over operation histories with symbolic sizes, positions and contents',
             rule='Histories make -> append -> (clear | resize) -> operation -> operation are analysed with symbolic max_size, lengths (small, around the initial capacity, and anything up to SIZE_MAX), positions, fill bytes and stream outcomes; after each, size(), the terminator and the byte at a symbolic index of data() must equal the specification, and failures must be exactly the ones that do not fit, with ENOSPC and no change; blocks have their exact extent.',
             assume=['max_size >= 1', 'lengths of the first append up to 5000 in histories of three or more operations']),
 'C13': dict(comps=['integer_'], kinds=ALL, technique=AI + ' with a modular linear domain',
             rule='Round trips and comparisons are analysed for symbolic words over the whole 64-bit range; hash functions are run twice in the abstract on equal contents at different addresses (relational analysis) and their results must be the same expression, which may mention no byte outside the contents.'),
 'C14': dict(comps=['float_'], kinds=ALL, technique=AI + ', partitioned by sign and exponent with a symbolic significand',
             rule='The 2^64 bit patterns are partitioned into sign x exponent classes with a symbolic significand; in each class the result must be the exact IEEE 754 value or a refusal.'),
 'C15': dict(comps=['date_'], kinds=ALL, technique=AI + ', partitioned by month of the 400-year cycle with symbolic cycle, day and time',
             rule='The seconds of 1970..9999 are partitioned into the 4800 months of the Gregorian cycle with symbolic cycle number, day, hour, minute and second; every struct tm member must equal the calendar value as a linear expression.'),
 'C16': dict(comps=['utf8_'], kinds=ALL, technique=AI + ' with symbolic bytes and sextets, for every amount of room and both char signednesses',
             rule='Decoding is analysed on areas of 0 to 5 symbolic bytes (bounded or NUL-terminated; the function looks at no more than 4), and must agree with Unicode Table 3-7 in every class of byte values; encoding is analysed for code points built from symbolic sextets, for 0 to 5 bytes of room; areas have exactly the given extent, so that any access at or past the end is an out-of-bounds violation.'),
 'C18': dict(comps=['tables_'], kinds=ALL, technique='piecewise abstract interpretation of the generated lookup functions (partition of the code space into intervals)',
             rule='The generated sources are regenerated from the current tree and compiled to IR; each lookup function is interpreted over the interval 0..10FFFF of code points (pairs of them for composition), which is partitioned wherever the function changes; the resulting piecewise function is compared on every code point (every pair) with the UCD files, read by a separate parser.',
             assume=['the files in unicode/ are the reference', 'composition is only asked for starters']),
 'C19': dict(comps=['tables_'], kinds=ALL, technique='piecewise abstract interpretation of the generated lookup functions (partition of the code space into intervals)',
             rule='The IDNA table is regenerated from the current tree and compiled to IR; each status predicate, charstr_idna_status and charstr_idna_mapping are interpreted over the intervals of 0..10FFFF, partitioned wherever they change (bit sets word by word, the binary search path by path); statuses and mapping strings are compared on every code point with IdnaMappingTable.txt, read by a separate parser.',
             assume=['idna/IdnaMappingTable.txt is the reference']),
 'C20': dict(comps=['ascii_'], kinds=ALL, technique=AI + ' over the finite set of byte values, for both char signednesses',
             rule='Each function is analysed with a symbolic char over all 256 values; the resulting expression is compared pointwise with the documented classes and maps; class bit definitions are compared with their documentation.'),
 'C21': dict(comps=['strings_'], kinds=ALL, technique=AI + ' with symbolic bytes; table lookups as piecewise affine functions; for both char signednesses',
             rule='Comparison is analysed for every pair of byte sequences that decides at byte k (k up to 3; 4 in thorough), the blocks ending right after the deciding byte, so that any further read is out of bounds; prefix and suffix tests for all pairs of lengths up to 4 and 3 with symbolic bytes; conversions for every length up to 4 with guard bytes around the range; results must equal the specification in every class of byte values.',
             assume=['strings longer than the bounds behave like shorter ones (the loops treat each byte alike)']),
 'C22': dict(comps=['split_'], kinds=ALL, technique=AI + ' with symbolic bytes, delimiters and split counts; results compared with the specification piece by piece',
             rule='Every string of up to 5 symbolic bytes (6 in thorough), every delimiter character, every delimiter string of 1 to 3 symbolic bytes and every max_split are analysed; the strings returned must be exactly the specified pieces, each NUL-terminated in a block of its own that the caller can release, with nothing else left allocated; blocks have their exact extent.',
             assume=['nonempty delimiters', 'strings longer than the bounds behave like shorter ones']),
 'C17': dict(comps=['sanitize_'], kinds=ALL, technique=AI + ' on strings of symbolic bytes',
             rule='Strings of up to 3 arbitrary bytes (4 and 5 after a leading byte of three- and four-byte forms) and every combination of up to two of 19 classes of well-formed and malformed units (three in part), with symbolic bytes, are analysed as signed and unsigned char; validation and the sanitized bytes must equal a scan with Unicode Table 3-7, within exactly sized blocks.'),
 'C30': dict(comps=['norm_'], kinds=ALL, technique=AI + ' with the character tables as uninterpreted functions',
             rule='Decomposition, recomposition and the quick check are analysed on strings of up to 3 (some up to 7) symbolic code points over 13 kinds (starters and marks of each encoding length, characters with one- and two-level and singleton decompositions, Hangul syllables and jamo) with symbolic combining classes, and composites chosen freely per pair; the output must be the encoding of the canonical decomposition in canonical order, or of the canonical composition.'),
 'C31': dict(comps=['printf_'], kinds=ALL + ['leak'], technique=AI + ' with va_lists as typestates and the C library formatter as a model with a symbolic text',
             rule='Both functions are analysed with a formatter that fails or produces a text of symbolic length (0 to INT_MAX) and contents, and a reallocator that succeeds or refuses; every va_list is tracked from va_start or va_copy through its one traversal to va_end. The result must be the whole terminated text in the only block left allocated, or NULL with EILSEQ and nothing left.',
             assume=['vsnprintf and vsprintf behave as ISO C specifies, and alike for the same format and arguments']),
 'C26': dict(comps=['utf8_', 'base64_', 'norm_', 'idna_'], kinds=['oob', 'nullderef', 'rowrite', 'uaf', 'room'], technique=AI + ' with exactly sized output areas',
             rule='The encoders and normalizers are analysed with output areas of every size from none to more than enough, each a memory object of exactly that size; the fixed work areas of IDNA encoding are objects of their declared size, and names reaching every limit are analysed. Any access outside an object is a violation, and so is a result that claims success without room, or failure with enough.'),
 'C27': dict(comps=['idna_'], kinds=ALL + ['leak'], technique=AI + ' with the character tables as uninterpreted functions',
             rule='charstr_idna_encode is analysed on every name of up to 2 (partly 3) characters over 24 kinds (letters, digits, hyphen, dot, other ASCII; valid, deviation, ignored, mapped to letters, hyphens or dots, disallowed and combining code points of every encoding length, symbolic where a label has one of them) and on names that put labels and the whole name just below, at and above every limit; the result must be NULL or the exact Punycode form (RFC 3492; the Python codec is the oracle for several concrete code points), in the only block left allocated.'),
 'C25': dict(comps=['list_', 'avl_', 'priorq_', 'intset_', 'bytearray_', 'split_', 'sanitize_', 'url_', 'base64_', 'idna_', 'hash_', 'printf_'],
             kinds=['leak', 'uaf', 'doublefree', 'badfree', 'userfree'], technique=AI + ' with an ownership obligation at every return of every public function',
             rule='In every abstract run of the other checks (containers, byte arrays, sets, strings, URL, base64, UTF-8 and IDNA functions, with all their failure paths), at each return of a public function every block its arguments led to or that it allocated must be released or still be reachable from the result, the arguments (unless it destroys them) or memory of the caller; no block is released twice, used after release, and no pointer the library does not own is released.'),
 'C32': dict(comps=['ascii_', 'integer_', 'float_', 'printf_', 'fsalloc_', 'utf8_', 'tables_', 'date_', 'intset_', 'list_', 'avlsearch_', 'sanitize_', 'split_', 'strings_', 'bytearray_', 'avl_', 'url_', 'norm_', 'idna_', 'base64_', 'priorq_', 'hash_'],
             kinds=MEM + ['overflow', 'hang'], technique=AI + ' with a definedness check at every load, store, call, signed operation, shift and division',
             rule='In every abstract run of the other checks, i.e. from every state and argument they cover, each access must stay within a live object and read initialised memory, no NULL or foreign pointer is dereferenced, no constant object written, the exact result of each signed operation is representable, shift counts and divisors are in range, and no assertion can fail.',
             assume=['the bounds of the checks for the respective properties']),
 'C24': dict(comps=['url_'], kinds=ALL, technique=AI + ' on strings of symbolic bytes',
             rule="Every byte is encoded (16 blocks of symbolic bytes), a custom encoder is made from reserve and unreserve strings of symbolic characters and asked about every byte, strings of up to 6 symbolic bytes over seven classes are encoded, and texts of up to 5 (6) characters over hex-digit, plus, percent and other classes are decoded; results, lengths, block sizes and errno must equal the definition, and every access must stay within exactly sized blocks."),
 'C23': dict(comps=['base64_'], kinds=ALL, technique=AI + ' with contents as symbolic sextets and character classes; table lookups as piecewise affine functions',
             rule='Encoding is analysed for 0 to 7 source bytes (10 in thorough) made of symbolic sextets, every amount of room and symbolic characters 62 and 63; decoding for every sequence of up to 3 (4) characters over nine classes (letters, digits, 62, 63, whitespace, padding, NUL, anything else) and longer sequences over fewer, bounded and NUL-terminated, with every combination of room and whitespace option; results, stored bytes, lengths and errno must equal RFC 4648; encoding_size is analysed for every size_t; source and destination have their exact extent. The public tables are compared with the alphabet entry by entry.',
             assume=['whitespace between padding characters is left unspecified', 'char is signed (so that -1 selects the defaults)', 'custom characters 62 and 63 are not otherwise meaningful']),
}
NA = {
 'C28': 'Whether a whole string of unbounded length ends up in canonical order depends on sorting and composing runs of combining marks of run-time length against run-time table data; no static argument in reach bounds that. The tables it uses (C18), its memory safety (C26) and ownership (C25) are decided.',
 'C29': 'Punycode deltas are non-linear functions (repeated division by run-time quantities) of the whole label; equality with RFC 3492 for all labels is outside any static domain in reach. Legality of the output (C27) and memory safety are decided.',
}
