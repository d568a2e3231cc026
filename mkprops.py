#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "A list is exactly the sequence its operation history implies",
 "After any history of appends, prepends, inserts-before, removals and pops, walking a list forwards, walking it backwards, its size, its emptiness, its first and last element, lookup by value and lookup by index all describe one and the same sequence, and it is the sequence the history implies. An operation affects only the position it names: every other element keeps its value, its order and its identity. Copying a list yields a separate list with the same sequence and leaves the original unchanged.",
 ["histories", "inputs"], "every reachable list (any length), every element of it as the operand, every value",
 "There is no list test at all; lists are exercised only indirectly through splitting a few strings, so insert-before, removal in the middle, backward traversal and index lookup are never observed.",
 ["src/list.c", "include/list.h", "include/list_imp.h"],
 [("link surgery", "src/list.c list_append/list_prepend/list_insert_before/list_remove"), ("size bookkeeping", "src/list.c list->size")],
 [("first/last/size", "ends and cached length", "include/list_imp.h struct list"), ("previous/next", "neighbour links", "include/list_imp.h struct list_elem")],
 ["list_get_first/next/previous/last", "list_size", "list_get", "list_get_by_index"])

prop("C02", "The AVL tree is a map: it holds exactly what was put and not removed",
 "For every history of operations with a consistent comparator, looking up a key returns the element put most recently under an equal key and not removed since, and nothing if there is none; the size is the number of such elements. Putting a key that is already present replaces that element and hands the old one back (putting the very value already stored changes nothing and returns nothing); detaching, removing or popping an element takes out exactly that element and leaves every other association in place. A copy holds the same associations and shares no element with the original.",
 ["histories", "inputs"], "every reachable tree shape and size, every key and value, every total preorder as comparator",
 "The test inserts a million random, ascending and descending keys and pops them in one order; it never replaces a key, never detaches by element, and samples a vanishing part of the tree shapes on which rebalancing after removal can go wrong.",
 ["src/avltree.c", "include/avltree.h", "include/avltree_imp.h"],
 [("descent and insertion", "src/avltree.c put/put_left/put_right"), ("replacement", "src/avltree.c put, substitute"), ("removal by exchange with a neighbour", "src/avltree.c avl_tree_detach, exchange"), ("copying", "src/avltree.c copy_tree")],
 [("root/size", "top node and cached element count", "include/avltree_imp.h struct avl_tree")],
 ["avl_tree_get", "avl_tree_size", "avl_tree_put", "avl_tree_pop", "avl_tree_detach"])

prop("C03", "The AVL tree stays height-balanced, ordered and consistently linked",
 "After every operation the heights of the two subtrees of every element differ by at most one and the recorded balance of every element is that difference, so that lookups stay logarithmic. Every element's key is greater than all keys in its left subtree and less than all keys in its right subtree, and child and parent links agree everywhere with the topmost element having no parent.",
 ["histories", "inputs"], "every reachable tree, every insertion point and every removed element, both rotation kinds on both sides",
 "The test checks height, order and links only after bulk phases on three key orders; rotation cases met during removal, in particular with a balanced sibling, are hit or missed by chance.",
 ["src/avltree.c", "include/avltree_imp.h"],
 [("rotations", "src/avltree.c rotate_left/rotate_right"), ("retracing after insertion", "src/avltree.c put_left/put_right"), ("retracing after removal", "src/avltree.c lighten_left/lighten_right/lighten_parent")],
 [("balance", "height of right minus height of left subtree", "include/avltree_imp.h struct avl_elem")],
 ["avltree_imp.h fields after each call"])

prop("C04", "AVL neighbour queries return the nearest element on the asked side",
 "On every tree, asking for the element before, on-or-before, after or on-or-after a key returns the element with the greatest key below (or not above), respectively the least key above (or not below), the given key, and nothing exactly when no such element exists. The first and last queries return the least and the greatest element; stepping to the next or previous element returns the immediate neighbour in key order, and nothing exactly at the end.",
 ["inputs", "histories"], "every well-formed tree and every key, present or absent, and every element of the tree",
 "Only first/next/last/previous are tested, on complete walks; the four bounded queries have no test.",
 ["src/avltree.c", "include/avltree.h"],
 [("descent with a candidate", "src/avltree.c avl_tree_get_before/_on_or_before/_after/_on_or_after"), ("stepping", "src/avltree.c avl_tree_next/avl_tree_previous")],
 [], ["avl_tree_get_before", "avl_tree_get_on_or_before", "avl_tree_get_after", "avl_tree_get_on_or_after", "avl_tree_next", "avl_tree_previous", "avl_tree_get_first", "avl_tree_get_last"])

prop("C05", "The hash table is a map, whatever the hash function collides",
 "For every history of operations and any hash and comparison functions that agree with each other, looking up a key returns the element put most recently under an equal key and not removed since, and nothing if there is none; the size is the number of such elements. Putting a key that is present replaces and hands back the old element (putting the very value already stored changes nothing and returns nothing); detaching, removing or popping takes out exactly that element and no other.",
 ["histories", "inputs", "configurations"], "every reachable table, every capacity, every key and value, every hash function including constant ones",
 "The hash table has no test.",
 ["src/hashtable.c", "include/hashtable.h", "include/hashtable_imp.h", "src/list.c"],
 [("bucket choice", "src/hashtable.c hash(key) % capacity"), ("search within a bucket and replacement", "src/hashtable.c hash_table_get, hash_table_put"), ("back references for removal", "src/hashtable.c hash_table_detach")],
 [("table", "one optional list per bucket", "include/hashtable_imp.h struct hash_table"), ("list_index/loc", "where an element sits", "include/hashtable_imp.h struct hash_elem")],
 ["hash_table_get", "hash_table_put", "hash_table_pop", "hash_table_size"])

prop("C06", "Traversing a hash table visits every element exactly once",
 "Starting from get-any and stepping with get-other until nothing is returned visits every element of the table exactly once, on every table. Get-any and pop-any return nothing exactly when the table is empty, and pop-any removes exactly the element it returns.",
 ["histories", "inputs"], "every reachable table, every distribution of elements over buckets",
 "The hash table has no test.",
 ["src/hashtable.c", "include/hashtable.h"],
 [("scan for the next non-empty bucket", "src/hashtable.c get_next, hash_table_get_other, hash_table_pop_any")],
 [], ["hash_table_get_any", "hash_table_get_other", "hash_table_pop_any", "hash_table_empty"])

prop("C07", "The priority queue never loses elements and always yields a minimum",
 "For every history and every total preorder as comparator, peek and dequeue return an element no other queued element precedes, or nothing when the queue is empty. The multiset of queued elements (duplicates included) changes only by the element enqueued, dequeued, popped or removed, and the size is its cardinality.",
 ["histories", "inputs"], "every reachable queue of any size, any element, any total preorder including ties and repeated elements",
 "The test enqueues and drains random integers; it never interleaves removals by locator with ties and repeated elements.",
 ["src/priority_queue.c", "include/priority_queue.h"],
 [("sift up", "src/priority_queue.c raise"), ("sift down", "src/priority_queue.c lower"), ("growth", "src/priority_queue.c priorq_enqueue")],
 [("storage/capacity", "implicit binary heap", "src/priority_queue.c struct priorq")],
 ["priorq_enqueue", "priorq_dequeue", "priorq_peek", "priorq_pop", "priorq_remove", "priorq_size"])

prop("C08", "The last reported locator of a queued element always finds that element",
 "After every operation, for every element in the queue (distinct elements), the locator most recently reported for it by the relocation callback denotes that element: removing by that locator takes out and returns exactly that element. No relocation goes unreported.",
 ["histories", "inputs"], "every reachable queue with distinct elements, every element of it, every operation",
 "The tests remove a few elements by locator; a move that is not reported shows only if that very element is later removed by its stale locator.",
 ["src/priority_queue.c", "include/priority_queue.h"],
 [("every store into a slot is followed by the callback", "src/priority_queue.c assign")],
 [], ["reloc callback", "priorq_remove"])

prop("C09", "An integer set is exactly the set of elements added and not removed",
 "For every size up to INT_MAX and every history, membership answers true exactly for elements below the size that were added (or filled in) and not removed since; adding or removing one element affects no other, and elements at or beyond the size are never members and never disturb memory. The next-hit and next-miss searches return the least member, respectively non-member, at or above the given element and below the size, and -1 exactly when there is none; the set is empty exactly when it has no member.",
 ["histories", "inputs"], "every size up to INT_MAX, every element value, every contents",
 "The test uses one size and a handful of elements; word boundaries, a last partial word after fill, and out-of-range elements are not covered.",
 ["src/intset.c", "include/intset.h", "include/intset_imp.h"],
 [("bit addressing", "src/intset.c intset_add/intset_remove/intset_has"), ("word-wise search", "src/intset.c intset_find_next")],
 [("data/size", "bitmap words", "include/intset_imp.h struct intset")],
 ["intset_has", "intset_find_next_hit", "intset_find_next_miss", "intset_empty"])

prop("C10", "A byte array holds exactly the bytes written and never exceeds its maximum",
 "After every operation the contents are exactly what the history of copies, appends, stream reads, resizes and clears implies, followed by a NUL byte, and contents plus NUL never exceed the maximum size given at creation. An operation that would exceed it (or write past the current end) fails and leaves contents and size unchanged; one that fits succeeds, and a stream read is asked for no more than fits. No access falls outside the allocated storage.",
 ["histories", "inputs"], "every maximum size of at least 1, every contents, position, length up to SIZE_MAX and fill byte",
 "The test performs one scripted sequence on one array; the boundary at the maximum size, growth from every fill level and lengths near SIZE_MAX are not sampled.",
 ["src/bytearray.c", "include/bytearray.h"],
 [("space check and growth", "src/bytearray.c ensure_space"), ("copy/append/resize", "src/bytearray.c byte_array_copy/append/resize/append_stream")],
 [("cursor/size/max_size", "length, allocated size and limit", "src/bytearray.c struct byte_array")],
 ["byte_array_data", "byte_array_size", "return values"])

prop("C11", "Base64 encoding is RFC 4648 for every input and never overruns the buffer",
 "For every byte string and every pair of replacement characters, encoding produces exactly the RFC 4648 text with padding and reports its full length whatever the size of the destination. Into a destination of n bytes exactly the first min(length, n-1) characters and a terminating NUL are stored and nothing is written beyond; the advertised encoding size equals that length, or -1 exactly when it would not fit in a size_t.",
 ["inputs"], "every source length and contents, every destination size, every pos62/pos63",
 "The tests encode short fixed strings and a few truncations; all residues of length modulo 3 combined with all residues of the destination modulo 4 are not covered, nor size arithmetic near SIZE_MAX.",
 ["src/base64.c", "include/base64.h"],
 [("whole-group loop, boundary group and tail", "src/base64.c base64_encode_buffer, put4"), ("size arithmetic", "src/base64.c base64_encoding_size")],
 [("base64_bitfield_encoding", "alphabet", "src/base64.c")],
 ["base64_encode_buffer", "base64_encode_simple", "base64_encoding_size"])

prop("C12", "Base64 decoding accepts exactly well-formed text and inverts encoding",
 "Decoding yields a byte string exactly when the source, up to NUL or its given size, is a sequence of alphabet characters (interspersed with ASCII whitespace only if whitespace is to be ignored) with zero leftover bits followed by exactly the required padding (and then only whitespace if ignored); every other source is rejected with EILSEQ. The bytes are those whose encoding it is, the full decoded length is reported whatever the destination size, and nothing is stored beyond the destination or the decoded length.",
 ["inputs"], "every source text and size, every destination size, every pos62/pos63, whitespace ignored or not",
 "The tests decode a few fixed strings; bytes outside the alphabet (each of the 256), misplaced padding and nonzero leftover bits are hardly sampled. DEL and 0xff were in fact misdecoded.",
 ["src/base64.c", "include/base64.h"],
 [("decoding table", "src/base64.c base64_bitfield_decoding"), ("accumulate and emit", "src/base64.c base64_decode_buffer"), ("termination rules", "src/base64.c good_base64_tail/good_termination")],
 [], ["base64_decode_buffer", "base64_decode_simple"])

prop("C13", "UTF-8 encoding and decoding of a code point are exact and inverse",
 "Decoding succeeds at a position exactly when a well-formed UTF-8 sequence (RFC 3629: shortest form, no surrogates, at most U+10FFFF) starts there and ends within the bound, returns the position just after it and the code point it denotes, and never reads at or beyond the bound. Encoding any Unicode scalar value writes its unique UTF-8 sequence if it fits below the bound and reports failure otherwise without writing beyond it; decoding what was encoded gives the value back.",
 ["inputs"], "all byte sequences of up to four bytes, every bound including none, all code points",
 "The tests decode four characters; overlong forms, surrogates, truncations at each byte and bounds inside a sequence are untested. Overlong forms were in fact accepted.",
 ["src/charstr.c", "include/charstr.h"],
 [("decoder", "src/charstr.c charstr_decode_utf8_codepoint, valid_unicode"), ("encoder", "src/charstr.c charstr_encode_utf8_codepoint")],
 [], ["charstr_decode_utf8_codepoint", "charstr_encode_utf8_codepoint"])

prop("C14", "UTF-8 validation and sanitisation agree with the decoder on whole strings",
 "A bounded or NUL-terminated string is reported valid exactly when it can be consumed completely by decoding one code point after another. Sanitising copies every well-formed sequence unchanged and replaces each byte at which none starts by U+FFFD, so the result is always valid and equals the input when the input is valid; the result is NUL-terminated and exactly fills its allocation.",
 ["inputs"], "every byte string of any length",
 "The tests sanitise one string.",
 ["src/charstr.c", "include/charstr.h"],
 [("two-pass copy", "src/charstr.c charstr_sanitize_utf8"), ("scan", "src/charstr.c charstr_valid_utf8, charstr_valid_utf8_bounded")],
 [], ["charstr_sanitize_utf8", "charstr_valid_utf8", "charstr_valid_utf8_bounded"])

prop("C15", "ASCII classification, case conversion and caseless comparison are exact",
 "For every byte the reported character class contains exactly the documented classes of that ASCII character (none for bytes above 127), hexadecimal digit values are right, and case conversion maps exactly A-Z to a-z and back while leaving every other byte alone. Caseless comparison of two strings (optionally limited to n characters) returns a negative, zero or positive value exactly as the lower-cased byte strings compare, and converting a string changes nothing but the case of its ASCII letters.",
 ["inputs"], "all 256 bytes; all pairs of strings of any length, every limit",
 "The tests never query the tables directly. LF, FF and CR were in fact misclassified.",
 ["src/charstr.c", "include/charstr.h"],
 [("lookup tables", "src/charstr.c case_table, char_class, digit_value"), ("comparison loops", "src/charstr.c charstr_case_cmp, charstr_ncase_cmp"), ("in-place conversion", "src/charstr.c charstr_lcase_str/charstr_ucase_str/..._substr")],
 [], ["charstr_char_class", "charstr_lcase_char", "charstr_ucase_char", "charstr_digit_value", "charstr_case_cmp", "charstr_ncase_cmp"])

prop("C16", "URL decoding inverts URL encoding and rejects malformed escapes",
 "Encoding replaces each byte by itself, by '+' for a space, or by its upper-case percent escape, as documented for that byte or as the custom encoder demands, so that every encoding by the default encoder decodes to the original string. Decoding fails with EILSEQ exactly when some '%' is not followed by two hexadecimal digits, and otherwise yields every byte the text denotes (including %00) with the reported length; no result overruns its allocation.",
 ["inputs", "configurations"], "every string, every custom reserve and unreserve set, every encoding text",
 "The tests encode and decode one sentence; each of the 256 table rows and malformed escapes at the end of the text are not covered.",
 ["src/charstr.c", "include/charstr.h"],
 [("table", "src/charstr.c url_encoder"), ("sizing then copying", "src/charstr.c charstr_url_custom_encode, charstr_url_decode"), ("customisation", "src/charstr.c charstr_create_url_encoder")],
 [], ["charstr_url_encode", "charstr_url_custom_encode", "charstr_url_decode", "charstr_url_encode_byte"])

prop("C17", "String duplication, prefix, suffix, strip and split functions are exact",
 "Duplicating a string or substring yields exactly its bytes and a NUL; the prefix functions return the position after the prefix exactly when the string starts with it (caselessly where so documented), and the suffix test is true exactly when the string ends with it. Stripping removes exactly the leading and trailing whitespace. Splitting cuts at the first max_split delimiters and nowhere else, so that the pieces joined by the delimiter give the string back; splitting into atoms yields the maximal runs of non-whitespace in order.",
 ["inputs"], "every string, delimiter, prefix, suffix and split limit, of any length",
 "The tests cover the suffix function on one string; the split functions are used only by a table generator on its own data.",
 ["src/charstr.c", "include/charstr.h", "src/list.c"],
 [("scanning and duplicating", "src/charstr.c charstr_split, charstr_split_str, charstr_split_into_array, charstr_split_atoms, charstr_strip, charstr_dupsubstr")],
 [], ["charstr_split", "charstr_split_into_array", "charstr_split_atoms", "charstr_split_str", "charstr_strip", "charstr_skip_prefix", "charstr_ends_with"])

prop("C18", "Epoch seconds convert to the proleptic Gregorian UTC date and time",
 "For every epoch value within five million years of 1970, before as well as after it, the year, month, day, hour, minute, second and weekday reported are those of the proleptic Gregorian calendar in UTC. Each field is in its normal range, no arithmetic overflows, and daylight saving is reported as off.",
 ["inputs"], "every time_t whose day number lies within +-1826212500 (five million years)",
 "The test samples every 17113 s from 1970 to 2037, so no century or 400-year boundary other than 2000 and no negative epoch is reached. Negative epochs were in fact wrong.",
 ["src/date.c", "include/date.h"],
 [("400/100/4-year cycles from 1 March 1600", "src/date.c epoch_to_utc"), ("day-of-year table", "src/date.c YDAY_INFO")],
 [], ["epoch_to_utc"])

prop("C19", "binary64 bit patterns convert to integers exactly or not at all",
 "For every 64-bit pattern, conversion to a signed or unsigned integer succeeds exactly when the IEEE 754 binary64 number it denotes is an integer representable in the target type, and then gives precisely that integer. NaNs, infinities, fractions and out-of-range numbers fail.",
 ["inputs"], "all 2^64 bit patterns, both functions",
 "The tests try a few dozen patterns.",
 ["src/float.c", "include/float.h"],
 [("exponent and significand arithmetic", "src/float.c binary64_to_integer, binary64_to_unsigned")],
 [], ["binary64_to_integer", "binary64_to_unsigned"])

prop("C20", "Boxed integers convert, compare and hash faithfully",
 "Boxing an integer of pointer width and unboxing it gives the same integer, and distinct integers box to distinct objects. The signed and unsigned comparators order boxed integers exactly as the integers themselves (negative, zero or positive result), over the whole range, and hashing a boxed integer yields its value; equal strings and equal blobs hash equally, depending on their bytes only.",
 ["inputs"], "all pairs of 64-bit integers; all strings and blobs",
 "There is no test of these functions.",
 ["src/integer.c", "include/integer.h", "src/hashtable.c"],
 [("casts", "include/integer.h"), ("comparison", "src/integer.c"), ("hashing", "src/hashtable.c hash_integer, hash_unsigned, hash_string, hash_blob")],
 [], ["integer_cmp", "unsigned_cmp", "as_integer", "as_intptr", "hash_integer", "hash_string", "hash_blob"])

prop("C21", "Unicode normalisation steps follow the standard for every code point",
 "The normal-form quick check answers 'disallowed', 'maybe' or 'allowed' exactly by the per-character flags and the order of combining classes over the whole string, and reports malformed UTF-8. Decomposing maps every Hangul syllable to its jamo and recomposition maps exactly those jamo sequences back, for all syllables; recomposition joins a mark to its starter only if it is not blocked and a primary composite exists, and loses and duplicates nothing. Neither direction writes beyond the output bound, and running out of space is reported as overflow.",
 ["inputs"], "every code point sequence, every Hangul syllable, every output bound",
 "The conformance file exercises fixed strings with ample buffers; truncating buffers are untested. A Hangul syllable was in fact emitted undecomposed when the buffer was short.",
 ["src/charstr_decompose.c", "src/charstr_recompose.c", "src/charstr_unicode.c"],
 [("Hangul arithmetic", "src/charstr_decompose.c decompose_hangul, src/charstr_recompose.c hangul_recomposer_feed"), ("blocking rule", "src/charstr_recompose.c recomposer_feed, recomposer_blocked"), ("quick check", "src/charstr_unicode.c charstr_detect_unicode_normal_form")],
 [], ["charstr_unicode_decompose", "charstr_unicode_recompose", "charstr_detect_unicode_normal_form"])

prop("C22", "IDNA encoding never crashes, overruns or emits an invalid host name",
 "For every NUL-terminated input, encoding a host name returns nothing or a freshly allocated NUL-terminated ASCII string, without aborting and without any access outside its buffers. An all-ASCII input is returned merely lower-cased; otherwise every label of the result has at most 63 characters, the result at most 254, and its characters are lower-case letters, digits, hyphens and dots.",
 ["inputs"], "every byte string of any length",
 "The conformance file holds well-behaved names; over-long labels mixed with non-ASCII ones are absent. Such a name in fact aborted the process.",
 ["src/charstr_puny.c"],
 [("label length check", "src/charstr_puny.c punycode_encode"), ("bounded emission", "src/charstr_puny.c emit, encode_filtered, encode_nfc, safecopy")],
 [], ["charstr_idna_encode"])

prop("C23", "The generated Unicode and IDNA tables agree with the data files",
 "For every code point from 0 to U+10FFFF, the general category, canonical combining class, simple case mappings (lower case of upper-case letters, upper case of lower-case letters, every other code point itself), canonical decomposition, primary composites, normal-form flags, IDNA status and IDNA mapping reported by the library are those given by the Unicode and IDNA data files it is built from.",
 ["inputs", "configurations"], "all 1114112 code points, every query function",
 "The tests look up a few dozen characters; one wrong row goes unnoticed. The last mapped and the last valid code point in fact had no IDNA status.",
 ["src/categorize.py", "src/canonical_combining_classes.py", "src/lower_case.py", "src/upper_case.py", "src/decomposition.py", "src/recomposition.py", "src/allowed_in_normal_form.py", "src/gen_idna_table.c"],
 [("table generators", "src/*.py, src/gen_idna_table.c")],
 [], ["charstr_unicode_category", "charstr_unicode_canonical_combining_class", "charstr_idna_status_is_*", "charstr_idna_mapping"])

prop("C24", "Containers own their memory exactly: no leak, double free or stray access",
 "Every container operation touches only memory that is live and belongs to the container or to the caller's arguments. Every block a container allocates is released exactly once - by the operation that removes it, by destroying the orphaned element handed to the caller, or by destroying the container - and stored keys and values are never freed; a shared byte array lives until its last owner destroys it.",
 ["histories", "inputs"], "every reachable list, AVL tree, hash table, priority queue, integer set and byte array; every operation on it",
 "No test runs under a memory checker or counts allocations, and the hash table and list are untested.",
 ["src/list.c", "src/avltree.c", "src/hashtable.c", "src/priority_queue.c", "src/intset.c", "src/bytearray.c"],
 [("destroy functions", "src/*.c destroy_*"), ("removal frees list nodes", "src/list.c list_remove"), ("reference count", "src/bytearray.c share_byte_array/destroy_byte_array")],
 [], ["fs_set_reallocator counting", "memory checkers"])

prop("C25", "All memory goes through the configured reallocator with exact sizes",
 "Allocation, reallocation and deallocation requests reach the currently set reallocator with exactly the pointer and size asked for, freeing passes size zero and freeing nothing passes no request, and cleared allocation zeroes all of nmemb x size bytes and never hands out a block smaller than that product, even if the product overflows. The default reallocator never returns a null pointer for a non-zero size. Setting a reallocator or counter takes effect for every later call and is what the getters report.",
 ["inputs", "configurations", "histories"], "every size and count, every reallocator and counter function",
 "There is no test of the allocator. An overflowing product in fact yielded a short block.",
 ["src/fsalloc.c", "include/fsalloc.h"],
 [("indirection through a function pointer", "src/fsalloc.c reallocator"), ("overflow guard", "src/fsalloc.c fscalloc")],
 [], ["fsalloc", "fsrealloc", "fsfree", "fscalloc", "fs_set_reallocator", "fs_reallocator_skew"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
