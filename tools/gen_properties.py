#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
S = "src/paimon/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Typed values and strings survive a write/read round trip with fixed wire order",
 "Any sequence of fixed-width integers, booleans, raw byte buffers and length-prefixed strings (up to 32767 bytes) written with either typed writer and read back with the typed reader in the same byte order yields the same values. The bytes on the wire are the value's bytes most-significant first by default and least-significant first when little-endian order is selected, whatever the size of the writer's internal segments.",
 ["inputs", "programs"], "all values of every supported type, both byte orders, all segment sizes and all positions of a value relative to a segment end",
 "Tests write a handful of literal values with the default 64 KiB segment; they never straddle a value over a segment end for every width and order.",
 [S+"common/io/data_output_stream.cpp", S+"common/io/data_input_stream.cpp", S+"common/io/memory_segment_output_stream.cpp", S+"common/io/memory_segment_output_stream.h", S+"common/utils/math.h"],
 [("byte-order conversion on write and read", S+"common/io/data_output_stream.cpp"), ("byte-by-byte path for values straddling a segment", S+"common/io/memory_segment_output_stream.h")])
prop("C02", "Typed reads and writes never succeed on missing bytes or I/O errors",
 "A typed read returns a value only if the underlying stream delivered every byte of it; when the stream ends early, reports an error or delivers fewer bytes than asked, the read returns an error and never a value made of bytes that were not delivered. A typed write reports success only if the sink accepted every byte.",
 ["inputs", "fault_sequences"], "every underlying stream behaviour: any remaining length, any error or short count at any call, any stored string length prefix",
 "Tests use well-behaved files; no test delivers a short read or a failing call in the middle of a value.",
 [S+"common/io/data_input_stream.cpp", S+"common/io/data_output_stream.cpp"],
 [("length check after each read", S+"common/io/data_input_stream.cpp"), ("length check after each write", S+"common/io/data_output_stream.cpp")])
prop("C03", "In-memory byte stream behaves like a bounded read-only file",
 "For every sequence of seeks, sequential reads and positional reads on an in-memory byte stream, each successful read returns exactly the bytes at the requested position of the original array and advances the sequential position by exactly the bytes returned, positional reads leave the position alone, and any request reaching outside the array returns an error, transfers nothing and leaves the position unchanged and usable. No request, however large its offset or size, touches memory outside the array.",
 ["inputs", "histories"], "all array contents, all operation sequences up to the bound, all 64-bit offsets and 32-bit sizes",
 "Tests run a few fixed offset/size pairs in range and one past the end; extreme offsets and error-then-continue histories are unreached.",
 [S+"common/io/byte_array_input_stream.cpp"],
 [("boundary check before copy", S+"common/io/byte_array_input_stream.cpp")])
prop("C04", "A window over a stream never exposes or misplaces bytes outside the window",
 "A stream view restricted to [offset, offset+length) of another stream returns, for every history of seeks and reads, exactly the bytes of the underlying stream at offset plus the view position, reports positions and length relative to the window, and answers any seek or read leaving the window with an error. This holds for all 64-bit window placements, including windows beyond 2 GiB.",
 ["inputs", "histories"], "all window offsets and lengths (64-bit), all operation sequences up to the bound, all underlying lengths",
 "Tests use windows of a few bytes on a tiny file; 64-bit placements cannot be exercised with real files.",
 [S+"common/io/offset_input_stream.cpp", S+"common/io/offset_input_stream.h"],
 [("window boundary check", S+"common/io/offset_input_stream.cpp")])
prop("C05", "Read buffering is invisible",
 "For every buffer size and every sequence of seeks and sequential reads, reading through the buffering stream gives the same bytes, counts and positions as reading the wrapped stream directly, up to the first request that cannot be served in full. Such a request, and any error of the wrapped stream, is reported as an error and never turned into data; after it an absolute seek restores agreement. Positional reads are refused.",
 ["inputs", "histories", "configurations", "fault_sequences"], "all contents, buffer sizes, operation sequences up to the bound, wrapped-stream faults",
 "Tests fix a few buffer sizes and one scripted access pattern; the interaction of seek direction, buffer fill level and read size is a product space.",
 [S+"common/io/buffered_input_stream.cpp"],
 [("buffer fill and in-buffer seek", S+"common/io/buffered_input_stream.cpp")])
prop("C06", "Values and bits in segmented memory read back exactly, whatever the segmentation",
 "Reading or writing a value, a bit or a byte range at any offset of a list of equally sized memory segments has the same effect as on one flat array holding the concatenated bytes: reads return exactly what the flat array holds, writes change exactly the addressed bytes or bit and nothing else. This holds in particular for values straddling segment boundaries.",
 ["inputs", "configurations"], "all segment sizes and counts up to the bound, all offsets, value types, contents and source/target placements",
 "Tests use one or two segment sizes with hand-picked offsets; the straddling cases for every type and offset are not covered.",
 [S+"common/memory/memory_segment_utils.h", S+"common/memory/memory_segment_utils.cpp", S+"common/memory/memory_segment.h"],
 [("fast path when everything is in the first segment, slow path otherwise", S+"common/memory/memory_segment_utils.h")])
prop("C07", "Equality, search and hash over segmented memory depend only on the bytes",
 "Comparing two byte ranges for equality, searching one range inside another and hashing a range give the same answer for every way of cutting the ranges into segments, equal to the answer on flat arrays: equality is byte equality, search returns the first matching position in the searched range or the documented not-found value, equal ranges hash equally. Regions are never read outside the given ranges.",
 ["inputs", "configurations"], "all contents, lengths, offsets and segment sizes on both sides up to the bound",
 "Equality over two differently segmented inputs has a case split on the relation of both segment phases which the tests hit at a few points only.",
 [S+"common/memory/memory_segment_utils.cpp", S+"common/memory/memory_segment.cpp", S+"common/utils/murmurhash_utils.h"],
 [("multi-segment comparison and search", S+"common/memory/memory_segment_utils.cpp")])
prop("C08", "Binary-string operations equal the same operations on the plain UTF-8 string",
 "Character count, substring, contains, prefix and suffix tests, first-occurrence search, case conversion and copying of a binary string give the result of the same operation on the plain byte string interpreted as UTF-8 characters, for valid UTF-8 and every layout of the bytes over memory segments. Characters are never split, and no byte outside the string's range influences a result.",
 ["inputs", "configurations"], "all valid UTF-8 contents up to the bound with 1-4 byte characters, all indices, all segmentations",
 "Tests use a fixed list of strings in one or two layouts; index/segment-boundary/character-width combinations are not enumerated.",
 [S+"common/data/binary_string.cpp", S+"common/data/binary_string.h"],
 [("single-segment and multi-segment implementations of each operation", S+"common/data/binary_string.cpp")])
prop("C09", "Binary strings have one total order, consistent with equality and hash",
 "Comparing two binary strings gives the lexicographic order of their bytes taken as unsigned values (a proper prefix is smaller), irrespective of how each is laid out in memory; two strings compare equal exactly when their bytes are equal, and equal strings have equal hash codes.",
 ["inputs", "configurations"], "all pairs of byte contents and layouts up to the bound",
 "Order laws quantify over pairs and layouts; tests compare a few literal pairs, mostly ASCII.",
 [S+"common/data/binary_string.cpp", S+"common/data/binary_section.cpp"],
 [("word-wise and segment-wise compare", S+"common/data/binary_string.cpp")])
prop("C10", "Short and long variable-length fields decode to the stored bytes",
 "Decoding a variable-length field from its 8-byte slot returns exactly the stored bytes: values of at most 7 bytes are taken from the slot itself, longer ones from the offset and length stored in the slot, for every placement of slot and payload over memory segments.",
 ["inputs", "configurations"], "all slot values in both encodings, all payload contents, offsets and segmentations up to the bound",
 "The mark bit and packed length/offset arithmetic is exercised by a couple of literals only.",
 [S+"common/data/binary_section.cpp", S+"common/data/binary_section.h"],
 [("mark bit selects inline or out-of-line", S+"common/data/binary_section.cpp")])
prop("C11", "Byte buffers own, move, copy and compare their content correctly",
 "Creating, copying, moving and destroying byte buffers preserves the content at its owner, leaves a moved-from buffer empty, never releases the same memory twice or leaks it, and equality and ordering of buffers are byte equality and unsigned lexicographic order. The memory pool's usage equals the sizes of the live buffers at every step.",
 ["histories", "inputs"], "all histories of create/copy/move/assign/destroy over a few buffers up to the bound, all contents",
 "Tests run fixed histories and small literals; ordering of bytes above 0x7f and self-assignment histories are open.",
 [S+"common/memory/bytes.cpp", "include/paimon/memory/bytes.h"],
 [("pool-accounted allocation and move semantics", S+"common/memory/bytes.cpp")])
prop("C12", "Memory pool accounting is exact and reallocation preserves content",
 "After any sequence of allocations, reallocations and frees, a memory pool reports as current usage the sum of the sizes of the live allocations and as maximum the highest value usage ever had. Reallocation preserves the common prefix of the content, honours the requested alignment, and size-zero and shrink/grow cases keep these facts true.",
 ["histories", "inputs"], "all histories up to the bound, all sizes and alignments up to the bound",
 "Tests check the counters for a few literal sizes in one order.",
 [S+"common/memory/memory_pool.cpp"],
 [("counters updated at each operation", S+"common/memory/memory_pool.cpp")])
prop("C13", "Memory pool statistics stay exact under concurrent use",
 "When several threads allocate and free concurrently from one memory pool, then at quiescence the reported current usage equals the live bytes, the maximum is at least every usage level some thread observed and never more than the true peak, for every interleaving.",
 ["schedules"], "all interleavings of 2-3 threads with a few pool operations each",
 "A test run sees one schedule; lost updates of the maximum need a preemption between its read and write.",
 [S+"common/memory/memory_pool.cpp"],
 [("atomic counters", S+"common/memory/memory_pool.cpp")])
prop("C14", "Bloom filter never reports an inserted hash as absent",
 "After inserting any set of 64-bit hashes, testing each of them reports present, also after the bit set is serialized and reloaded at any byte offset; testing never modifies the filter and an empty filter reports absent.",
 ["inputs", "histories", "configurations"], "all 64-bit hashes, all filter sizes and hash-function counts up to the bound, all insert sequences up to the bound",
 "The no-false-negative law quantifies over all hashes including those whose mixed value is negative; tests sample random ones.",
 [S+"common/utils/bloom_filter64.cpp", S+"common/utils/bloom_filter64.h"],
 [("same position function for insert and test", S+"common/utils/bloom_filter64.cpp")])
prop("C15", "Bit-sliced index answers every comparison predicate exactly",
 "For any sequence of appended row values and nulls, equality, less, less-or-equal, greater, greater-or-equal and non-null queries on the bit-sliced index return exactly the row ids whose value satisfies the predicate, for any probe value inside or outside the indexed domain. The answers are the same after serialization and reload.",
 ["inputs", "histories"], "all value sequences and probes up to the bound",
 "No unit test of the index is even runnable in this build; exactness quantifies over values, probe positions and null placement.",
 [S+"common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp", S+"common/file_index/bsi/bit_slice_index_roaring_bitmap.h"],
 [("slice-wise comparison", S+"common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp")])
prop("C16", "Decoders of stored metadata answer arbitrary bytes with a value or an error",
 "Decoding any byte string as a blob descriptor, a serialized index result, a bit-sliced index, a delta-varint sequence, a deletion-file list or a bitmap returns a value or an error status: it never throws, aborts, reads outside the buffer or allocates memory out of proportion to the input.",
 ["inputs"], "all byte strings up to the bound as input of every decoder",
 "Tests decode what the encoder produced plus a few truncations; hostile or corrupted lengths and versions are not enumerated.",
 [S+"common/data/blob_descriptor.cpp", S+"common/global_index/global_index_result.cpp", S+"common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp", S+"common/utils/delta_varint_compressor.cpp", S+"core/table/source/deletion_file.h", S+"common/utils/roaring_bitmap32.cpp", S+"common/utils/roaring_bitmap64.cpp"],
 [("bounds and version checks while decoding", S+"common/data/blob_descriptor.cpp")])
prop("C18", "Delta-varint coding is lossless for every integer sequence",
 "Compressing any sequence of 64-bit integers and decompressing the result yields the original sequence, including sequences whose successive differences overflow, and the empty sequence.",
 ["inputs"], "all int64 sequences up to the bound",
 "The zig-zag and overflow behaviour depends on all 2^64 differences; tests try literals and random small deltas.",
 [S+"common/utils/delta_varint_compressor.cpp"],
 [("delta, zig-zag and base-128 coding", S+"common/utils/delta_varint_compressor.cpp")])
prop("C19", "Row-range algebra is exact",
 "Intersection, overlap test, merge of overlapping (and optionally adjacent) ranges, pairwise AND of two range lists and exclusion of ranges contain exactly the row numbers set theory prescribes; results are sorted, disjoint and, where merging was requested, maximal. This holds for all 64-bit bounds including the extreme ones.",
 ["inputs"], "all lists of up to the bounded number of ranges with arbitrary 64-bit bounds",
 "Interval algebra has case splits on the order of many endpoints; tests cover a few arrangements of small numbers.",
 [S+"common/utils/range.cpp"],
 [("sort and sweep over endpoints", S+"common/utils/range.cpp")])
prop("C20", "Grouping by overlapping ranges yields exactly the connected groups, in order",
 "Grouping items by overlapping closed ranges puts two items in the same group exactly when they are connected by a chain of overlapping ranges, keeps every item exactly once, orders groups by position and keeps input order inside a group; a failure of the range accessor is returned. The all-same test is true exactly when all ranges are equal.",
 ["inputs", "fault_sequences"], "all lists of up to the bounded number of items with arbitrary ranges, accessor failures",
 "Transitive overlap (a long range covering later ones) needs particular endpoint orders.",
 [S+"common/utils/range_helper.h"],
 [("sort, running maximum end, stable regroup", S+"common/utils/range_helper.h")])
prop("C21", "Ordered bin packing keeps order and respects the target weight",
 "Packing items in order yields non-empty bins whose concatenation is the input sequence; a bin exceeds the target weight only if it consists of a single item, and a new bin is opened only when the next item would not have fitted.",
 ["inputs"], "all item counts and weights up to the bound, all targets",
 "Greedy boundary behaviour depends on exact sums; tests use a few literals.",
 [S+"common/utils/bin_packing.h"],
 [("running weight with flush", S+"common/utils/bin_packing.h")])
prop("C22", "Insertion-ordered map behaves as a map plus insertion order",
 "For any history of inserts, updates, lookups, erasures, copies and clears, lookups return the mapping's current content and iteration visits each key exactly once in the order of its current insertion; copies are independent of their source and equal to it.",
 ["histories"], "all operation histories up to the bound over a small key set",
 "The hash index and the order list can disagree only after particular histories (erase then reinsert, copy then mutate).",
 [S+"common/utils/linked_hash_map.h"],
 [("list plus index of iterators", S+"common/utils/linked_hash_map.h")])
prop("C23", "32-bit row bitmaps behave as sets of row ids",
 "Adding, removing and testing ids and ranges, flipping, union, intersection, difference, cardinality, emptiness, equality, range containment and in-order iteration with seek on a 32-bit bitmap give the answers of the mathematical set, and operations that return a new bitmap leave their operands unchanged.",
 ["inputs", "histories"], "all ids, ranges and operation histories up to the bound, ids spanning several storage containers",
 "Set laws quantify over histories and container layouts; tests use literal sets.",
 [S+"common/utils/roaring_bitmap32.cpp"],
 [("wrapper over the compressed bitmap", S+"common/utils/roaring_bitmap32.cpp")])
prop("C24", "64-bit row bitmaps behave as sets of row ids",
 "Adding, range-adding, testing, union, intersection, difference, cardinality, emptiness, equality and in-order iteration with seek on a 64-bit bitmap give the answers of the mathematical set of row ids, also for ids beyond 32 bits and across the 32-bit boundary, and operations returning a new bitmap leave their operands unchanged.",
 ["inputs", "histories"], "all ids, ranges and operation histories up to the bound, ids spanning several high-word buckets",
 "Tests use literal ids with one or two high words; boundary-crossing ranges and iterator seeks are sparse.",
 [S+"common/utils/roaring_bitmap64.cpp"],
 [("wrapper over the compressed bitmap", S+"common/utils/roaring_bitmap64.cpp")])
prop("C25", "Bitmaps survive serialization",
 "Serializing a 32- or 64-bit bitmap and deserializing it from bytes or from a stream yields an equal bitmap, the serialized size announced for it is the number of bytes produced, and stream decoding consumes exactly that many bytes.",
 ["inputs"], "all small sets of ids plus run- and bitset-shaped sets, any following stream content",
 "Tests round trip a few literals and never look at what follows in the stream for every size.",
 [S+"common/utils/roaring_bitmap32.cpp", S+"common/utils/roaring_bitmap64.cpp"],
 [("portable format with known size", S+"common/utils/roaring_bitmap32.cpp")])
prop("C26", "Combining file-index answers never loses a matching row or file",
 "AND and OR of file-index answers (remain, skip, row bitmaps, in any combination and nesting) remain whenever the logical combination of the operands may contain a match, and bitmap answers combine to exactly the intersection or union; a combination says skip only when the logical combination is empty. Failures while producing a bitmap are reported as errors.",
 ["inputs", "programs", "fault_sequences"], "all combinations and nestings up to the bound of all answer kinds with arbitrary bitmaps",
 "Nested mixed combinations and lazily failing operands are not in the tests.",
 [S+"common/file_index/file_index_result.cpp", S+"common/file_index/bitmap/bitmap_index_result.cpp"],
 [("dispatch on answer kind, lazy bitmap", S+"common/file_index/bitmap/bitmap_index_result.cpp")])
prop("C27", "Index readers without a specific answer never exclude data",
 "An index reader that only supports equality answers all other predicates so that no matching row is excluded: unsupported predicates answer remain, an in-list answers the OR of its equality answers, a not-in-list the AND of its inequality answers, an empty list excludes nothing that could match, and errors of the underlying answer propagate.",
 ["inputs", "programs", "fault_sequences"], "all predicate kinds, list lengths up to the bound and per-literal answers including errors",
 "The tests of this reader are not runnable in this build; the fold over lists quantifies over all answer combinations.",
 [S+"common/file_index/file_index_reader.cpp"],
 [("default predicate implementations", S+"common/file_index/file_index_reader.cpp")])
prop("C28", "Global-index answers form an exact set algebra over row ids",
 "AND, OR, shifting by an offset, conversion from and to row ranges, iteration and emptiness of global-index answers give exactly the set-theoretic result over row ids, for lazily computed, range-built, scored and foreign answer implementations in any pairing, and a failing lazy answer is reported as an error.",
 ["inputs", "programs", "fault_sequences"], "all small id sets, offsets, ranges and pairings of answer kinds up to the bound",
 "Pairings of answer kinds times id arrangements form a product the tests sample.",
 [S+"common/global_index/global_index_result.cpp", S+"common/global_index/bitmap_global_index_result.cpp", S+"common/global_index/bitmap_vector_search_global_index_result.cpp"],
 [("dispatch on answer kind, generic iterator merge", S+"common/global_index/global_index_result.cpp")])
prop("C29", "Vector-search scores stay attached to their row ids",
 "Whenever a scored answer is combined, shifted by an offset, iterated, serialized or reloaded, each surviving row id carries exactly the score it had in the operand it came from; combining two scored answers that share a row id by OR is refused.",
 ["inputs", "programs"], "all small id sets and score vectors, all combinations up to the bound",
 "Misattribution needs interleaved ids from both operands; tests compare rounded text for few cases.",
 [S+"common/global_index/bitmap_vector_search_global_index_result.cpp", S+"common/global_index/global_index_result.cpp"],
 [("id to score map and rebuild in bitmap order", S+"common/global_index/bitmap_vector_search_global_index_result.cpp")])
prop("C30", "Serialized global-index answers reload to the same answer",
 "Serializing any global-index answer and deserializing the bytes yields an answer with the same row ids and, for a non-empty scored answer, the same score for each of them; truncated bytes and bytes whose number of scores is neither zero nor the number of rows are refused.",
 ["inputs"], "all small id sets, scores and truncation points",
 "Tests round trip a few literal answers; truncation at every byte is not tried.",
 [S+"common/global_index/global_index_result.cpp"],
 [("versioned encoding", S+"common/global_index/global_index_result.cpp")])
prop("C31", "Row hashing equals the reference Murmur3 variant and ignores memory layout",
 "Hashing bytes gives the value of the fixed 32-bit Murmur3 variant used for bucketing (whole words, then trailing bytes one at a time sign-extended, then the length finalizer with the standard seed), for every content, length and alignment; hashing through a segment or through raw memory gives the same value.",
 ["inputs"], "all contents and lengths up to the bound, all start offsets",
 "Bucket assignment must match other engines for every key; tests check a few vectors.",
 [S+"common/utils/murmurhash_utils.h"],
 [("word loop, tail loop, finalizer", S+"common/utils/murmurhash_utils.h")])
prop("C32", "Timestamps keep their instant through conversions and order by instant",
 "A timestamp built from milliseconds and nanoseconds-of-millisecond orders and compares by the instant it denotes, converts to microseconds and, where representable, nanoseconds by truncation towards the past without changing the millisecond part, and conversion there and back at the coarser precision is the identity, for instants before and after the epoch.",
 ["inputs"], "all millisecond values whose result fits 64 bits and all nanosecond fractions",
 "Negative instants with sub-millisecond fractions need particular values; tests use a few literals.",
 [S+"common/data/timestamp.cpp", "include/paimon/data/timestamp.h"],
 [("floor arithmetic", S+"common/data/timestamp.cpp")])
prop("C33", "Blob descriptors survive encoding and reject other versions",
 "Encoding a blob descriptor and decoding the bytes yields the same uri, offset and length, the encoding has the documented little-endian layout, trailing bytes are ignored or refused consistently, and bytes of an unsupported version or shorter than the header demands are refused with an error.",
 ["inputs"], "all uris up to the bound, all 64-bit offsets and lengths, all truncation points and version bytes",
 "Tests use literal descriptors and one bad version.",
 [S+"common/data/blob_descriptor.cpp"],
 [("header with version and length", S+"common/data/blob_descriptor.cpp")])
prop("C34", "Deletion-file lists survive encoding in every supported version",
 "Writing a list of optional deletion-file references and reading it back with the current version yields the same list, including absent entries, absent and present cardinalities and the empty list; older layouts are read without cardinality, and a non-empty list of an unknown version is refused.",
 ["inputs", "configurations"], "all lists up to the bound, all 64-bit fields except the reserved marker, all versions",
 "Tests round trip a literal list.",
 [S+"core/table/source/deletion_file.h"],
 [("presence byte per entry", S+"core/table/source/deletion_file.h")])
prop("C35", "Stored codes of row kinds, file kinds, sources and modes are bijective",
 "Every row kind, file kind, file source and startup mode maps to its documented stored code or name and back to itself, distinct ones have distinct codes, and every other code or name is refused with an error.",
 ["inputs"], "all byte values, all strings up to the bound",
 "Tests check each valid code and one invalid; refusal quantifies over all others.",
 [S+"common/types/row_kind.cpp", S+"core/manifest/file_kind.cpp", S+"core/manifest/file_source.cpp", S+"core/table/source/startup_mode.cpp"],
 [("switch over codes", S+"common/types/row_kind.cpp")])
prop("C36", "Partition paths are unambiguous and contain no unescaped special character",
 "Escaping a partition key or value is injective, yields only characters that need no escaping plus percent-hex pairs, leaves harmless text unchanged and refuses empty names; a partition path is the escaped key=value components joined by separators in order, with a trailing separator, and hierarchical paths are its successive prefixes.",
 ["inputs"], "all byte strings up to the bound as keys and values, all specs up to the bound",
 "Injectivity quantifies over pairs of strings and every byte value including non-ASCII.",
 [S+"core/utils/partition_path_utils.cpp", S+"core/utils/partition_path_utils.h"],
 [("escape table and percent encoding", S+"core/utils/partition_path_utils.cpp")])
prop("C37", "Collected column statistics bound exactly the values collected",
 "After collecting any sequence of values and nulls, on top of given initial statistics, a column statistic reports the minimum and maximum of the non-null values in the type's order, none if there was no non-null value, and the exact null count; precision, scale and type are preserved.",
 ["inputs", "histories"], "all value sequences up to the bound for every column type",
 "Wrong bounds lead to wrongly skipped files; min/max update order depends on the value sequence.",
 [S+"common/format/column_stats.cpp"],
 [("running minimum, maximum and null count", S+"common/format/column_stats.cpp")])
prop("C38", "Merging and overwriting metrics neither loses nor double-counts counters",
 "After any sequence of set, merge and overwrite, each counter has the value given by addition for merges and replacement for set and overwrite, counters only present on one side are kept, the source of a merge is unchanged and merging an object with itself changes nothing. The same totals result under concurrent merges from several threads.",
 ["histories", "schedules"], "all operation histories up to the bound over a small counter set; all interleavings of two merging threads",
 "Tests merge two literal sets sequentially.",
 [S+"common/metrics/metrics_impl.cpp"],
 [("lock around the counter map", S+"common/metrics/metrics_impl.cpp")])
prop("C39", "Status and result objects have value semantics and never mask errors",
 "Copying, moving and assigning statuses and results preserves code, message and value at the target, leaves the source of a copy unchanged, never leaks or double-frees the value, and combining statuses yields the first error, success only if all succeeded. Error-propagation statements return exactly the error met and yield the value otherwise.",
 ["histories", "inputs"], "all sequences up to the bound of copy/move/assign over ok and error objects, all codes",
 "The result type manages its payload lifetime by hand; assignment histories between ok and error states are not enumerated by tests.",
 ["include/paimon/status.h", "include/paimon/result.h", S+"common/utils/status.cpp"],
 [("manual union lifetime", "include/paimon/result.h")])
prop("C40", "Factory registry returns what was registered, one instance per process",
 "After any history of registrations, looking up a type returns exactly the factory registered for it or nothing, the listing contains exactly the registered types, and all threads obtain the same fully constructed registry however first use interleaves.",
 ["histories", "schedules"], "all registration histories up to the bound; all interleavings of concurrent first use",
 "First-use races cannot be provoked reliably by a test.",
 [S+"common/factories/factory_creator.cpp", S+"common/factories/singleton.cpp"],
 [("mutex-protected map, lazily created singleton", S+"common/factories/singleton.cpp")])
prop("C41", "The fault-injection hook fires exactly at and after the chosen call",
 "Once armed at position n, the hook lets exactly the first n I/O calls pass and then reports, throws or ignores according to its mode on every later call, counts every call, and is inert after being cleared; concurrent callers consume distinct positions.",
 ["inputs", "histories", "schedules"], "all positions, modes and call counts up to the bound; all interleavings of two callers",
 "Tests use position zero only.",
 [S+"common/factories/io_hook.cpp"],
 [("atomic call counter against armed position", S+"common/factories/io_hook.cpp")])
prop("C42", "Local file operations report every failure and never invent data",
 "For every sequence of operating-system outcomes (short counts, end of file, errors), reading or writing a local file returns the exact number of bytes transferred with those bytes in place or an error, and flush, close, seek, tell, status, list, delete, mkdir and existence queries report success only if the system call succeeded, with absence told apart from failure.",
 ["fault_sequences", "inputs"], "all outcome sequences of the underlying calls up to the bound, all sizes",
 "Real files on a healthy disk never return short counts or late errors.",
 [S+"fs/local/local_file.cpp"],
 [("retry loops and errno checks", S+"fs/local/local_file.cpp")])
prop("C43", "The thread-safe queue is a linearizable FIFO",
 "Under every interleaving of pushes and pops from several threads, each pushed element is popped at most once, elements of one producer are popped in push order, a pop returns nothing only if the queue was empty at some moment during the call, and what is never popped remains in the queue.",
 ["schedules"], "all interleavings of 2-3 threads with a few operations each",
 "Each test run sees a handful of schedules.",
 [S+"common/utils/threadsafe_queue.h"],
 [("mutex around the queue", S+"common/utils/threadsafe_queue.h")])
prop("C44", "The default executor runs every accepted task exactly once",
 "Every task handed to the executor before shutdown begins is executed exactly once, shutdown returns only after all accepted tasks finished, no task runs after shutdown returned, and neither submission nor shutdown deadlocks, for every fair interleaving of submitters, workers and shutdown.",
 ["schedules"], "all interleavings of one or two submitters, one or two workers and shutdown with a few tasks",
 "Lost wake-ups and dropped tasks at shutdown need particular schedules.",
 [S+"common/executor/executor.cpp"],
 [("mutex, condition variable and stop flag", S+"common/executor/executor.cpp")])
prop("C45", "Scope guards run their action exactly once unless released",
 "The action of a scope guard runs exactly once when the scope is left normally or by an exception, and not at all after release.",
 ["inputs", "programs"], "all exit paths and release decisions of nested guards up to the bound",
 "Exit by exception combined with release order is not enumerated by tests.",
 [S+"common/utils/scope_guard.h"],
 [("destructor runs the stored action", S+"common/utils/scope_guard.h")])
prop("C46", "Byte swapping is exact and involutive for every width",
 "Swapping the byte order of any fixed-width value reverses its bytes exactly, and swapping twice is the identity, for 1, 2, 4 and 8 byte integers.",
 ["inputs"], "all values of every supported width",
 "All 2^64 values of the widest type cannot be tried.",
 [S+"common/utils/math.h"],
 [("width dispatch", S+"common/utils/math.h")])
prop("C47", "Whole-stream reads return the complete content or an error",
 "Reading a stream fully, synchronously or asynchronously in chunks, returns exactly the stream's bytes in order, each chunk being requested exactly once, or the first error met; a stream that is shorter than announced or fails at any chunk never yields success.",
 ["inputs", "fault_sequences"], "all stream lengths and contents up to the bound, failures at any call",
 "The chunked path needs streams longer than a chunk and failing in the middle.",
 [S+"common/utils/stream_utils.h"],
 [("chunk loop and status collection", S+"common/utils/stream_utils.h")])
prop("C48", "Dense row ids collapse into the right ranges",
 "Converting a global-index answer to ranges and building an answer from ranges are mutually inverse: the ranges are sorted, disjoint, maximal and cover exactly the row ids, for row ids below the largest 64-bit value.",
 ["inputs"], "all small id sets with arbitrary 63-bit ids, all range lists up to the bound",
 "Run boundaries depend on id adjacency patterns; tests use a few.",
 [S+"common/global_index/global_index_result.cpp", S+"common/global_index/bitmap_global_index_result.cpp"],
 [("run detection over the iterator", S+"common/global_index/global_index_result.cpp")])
prop("C49", "Segment order, comparison and swap act on exactly the given ranges",
 "Comparing two memory segment ranges tells equal from different correctly and orders them consistently in both directions, swapping exchanges exactly the two ranges, and copying between segments moves exactly the given bytes.",
 ["inputs"], "all contents, offsets and lengths up to the bound",
 "The word-wise fast path only differs from the byte-wise one for particular lengths and contents.",
 [S+"common/memory/memory_segment.cpp", S+"common/memory/memory_segment.h"],
 [("eight bytes at a time, then single bytes", S+"common/memory/memory_segment.cpp")])
prop("C50", "Per-key file-system resolution is stable and follows the configured scheme",
 "A path is always served by the file system configured for its scheme (or the default), the same scheme and authority always get the same instance, and concurrent first use creates it once.",
 ["configurations", "schedules"], "all scheme maps and paths up to the bound, all interleavings of two first users",
 "Needs several file systems and racing callers.",
 [S+"common/fs/resolving_file_system.cpp"],
 [("cache under a reader/writer lock", S+"common/fs/resolving_file_system.cpp")])
prop("C55", "Storing a file atomically publishes the whole content or nothing",
 "Storing content atomically under a path on the local file system either succeeds, and then the file holds exactly the content and survives a crash, or fails and publishes nothing; an existing file is never replaced or damaged and no other file is touched. A crash at any moment leaves the whole content or no file under the path. Of several threads storing to the same path exactly one succeeds, and a path means the same file with and without its file: scheme.",
 ["crash_points", "fault_sequences", "schedules"], "all contents up to the bound, a crash before any system call, any failing system calls, all interleavings of two threads within a preemption bound",
 "Tests store a file and read it back; no test fails or interrupts the individual system calls or races two writers.",
 [S+"fs/local/local_file_system.cpp", S+"fs/local/local_file.cpp", S+"common/fs/file_system.cpp"],
 [("write to a temporary name, synchronise, rename", S+"common/fs/file_system.cpp"), ("existence check and rename under a lock", S+"fs/local/local_file_system.cpp")])
prop("C52", "Merging sorted runs returns each key once, in order, with its latest version",
 "Merging any number of runs sorted by key returns every key exactly once and in key order, with the value the merge function computes from all its versions in sequence order, whichever run holds which version and with either sort engine. Deduplication keeps the version with the highest sequence number, first-row the one with the lowest, and keys whose latest version is a deletion disappear when deletions are dropped. A failing run makes the read fail; no record is lost or duplicated.",
 ["inputs", "histories", "fault_sequences"], "all distributions of up to 4 records over up to 4 runs with any keys, sequence numbers and kinds, any failing run",
 "Tests merge a few fixed runs; the order in which the loser tree or heap selects and the adjustment after a run ends depend on the keys of all runs.",
 [S+"core/mergetree/compact/sort_merge_reader_with_loser_tree.cpp", S+"core/mergetree/compact/loser_tree.cpp", S+"core/mergetree/compact/sort_merge_reader_with_min_heap.h"],
 [("tournament over the heads of the runs, all versions of the winner before the next key", S+"core/mergetree/compact/loser_tree.cpp"), ("heap over the heads of the runs", S+"core/mergetree/compact/sort_merge_reader_with_min_heap.h"), ("latest or first version per key", S+"core/mergetree/compact/deduplicate_merge_function.h")])
prop("C56", "Aggregation and partial update compute the declared result per key",
 "For each aggregation function the merged field is the fold of that function over the versions of the key in sequence order, retractions included, and unsupported retractions are refused unless ignored. Partial update keeps the newest non-null value of each field, within a sequence group the values of the record with the highest group sequence, and returns no row for a key without an added record. Nothing of a previous key influences the next one.",
 ["inputs", "histories"], "all histories of up to 3 (thorough 4) versions of a key of any kind with any nullable values, for every aggregation function, delete handling and group layout",
 "Tests check single examples per function; the interplay of nulls, retractions, out-of-order group sequences and reuse for the next key needs all histories.",
 [S+"core/mergetree/compact/aggregate", S+"core/mergetree/compact/partial_update_merge_function.cpp"],
 [("aggregator per field, reversed for older records", S+"core/mergetree/compact/aggregate/aggregate_merge_function.cpp"), ("sequence groups by comparator", S+"core/mergetree/compact/partial_update_merge_function.cpp")])
prop("C57", "Predicates hold for exactly the declared rows and pruning loses none of them",
 "A predicate holds for a row exactly as its operator, literals and combination say, where a comparison with null never holds, and gives the same answer for rows and columns. A file or row group whose statistics cover a matching row is never skipped, whatever the bounds and null counts, known or not. Negating, splitting or restricting a predicate to some fields never drops a row the original predicate accepts.",
 ["inputs"], "all nullable values of each type, literals, operators, statistics that cover the row, and combinations of up to 3 conditions",
 "Tests use chosen values; a pruning error shows only for a value at or between bounds together with particular null counts.",
 [S+"common/predicate"],
 [("three tests per function: value, statistics, column", S+"common/predicate/null_false_leaf_binary_function.h"), ("unknown statistics keep the file", S+"common/predicate/leaf_predicate_impl.h"), ("field restriction of conjunctions", S+"common/predicate/predicate_utils.cpp")])
prop("C58", "Binary rows and arrays hold exactly what was written, in one canonical form",
 "Reading a field of a binary row or an element of a binary array gives the value, or the null, that was written there, for every type, also when the bytes are spread over several memory segments. Two rows or arrays holding the same values have the same bytes and hash, whatever the writer held before, and rows holding different values are not equal. Serializing and deserializing a row keeps it unchanged.",
 ["inputs"], "all nullable values of every type at every position, all segment layouts within the bound, fresh and reused writers",
 "Tests write a few chosen values; stale bytes and null bits left in a reused writer or values crossing a segment border need particular lengths and positions.",
 [S+"common/data"],
 [("null bits, fixed part and variable part", S+"common/data/abstract_binary_writer.cpp"), ("reading across segments", S+"common/data/binary_row.cpp"), ("element access", S+"common/data/binary_array.cpp"), ("row serialization", S+"common/data/serializer/binary_row_serializer.cpp")])
prop("C59", "Planning splits loses no file and keeps together what must be merged",
 "Every data file of a bucket ends up in exactly one split and within it in exactly one sorted run. Files whose key ranges overlap, or whose row-id ranges overlap, are never placed in different sections or splits, and files of one run never overlap. A split is read without merging only if no two of its files can hold the same key and no delete must be applied.",
 ["inputs"], "all key ranges, levels, sizes, sequence and row-id ranges of up to 3 or 4 files, all target sizes",
 "A lost or separated file shows only for particular overlaps and size sums; tests use a few layouts.",
 [S+"core/mergetree/compact/interval_partition.cpp", S+"core/table/source"],
 [("section and run partition", S+"core/mergetree/compact/interval_partition.cpp"), ("raw convertible splits and bin packing", S+"core/table/source/merge_tree_split_generator.cpp"), ("row-id groups", S+"core/table/source/data_evolution_split_generator.cpp"), ("bin packing of append-only files", S+"core/table/source/append_only_split_generator.h")])
prop("C60", "Comparing rows by key is one consistent total order",
 "Comparing two rows by a list of fields gives the order of the first field in the list that differs, with nulls and not-a-number at one fixed end and strings in unsigned byte order. Swapping the rows reverses the answer, equal keys compare as equal, and the order is transitive, for every type, direction and row representation.",
 ["inputs"], "all pairs and triples of rows with any values, including nulls and not-a-number, in every type",
 "Tests compare chosen pairs; transitivity and antisymmetry over all values, including not-a-number, cannot be tested exhaustively.",
 [S+"core/utils/fields_comparator.cpp"],
 [("per-type comparison functions", S+"core/utils/fields_comparator.cpp")])
prop("C61", "Latest and earliest snapshots are found whatever the hint files say",
 "The latest and the earliest snapshot id returned are those of the snapshots that exist, whether the hint file is missing, empty, torn, behind or names a snapshot that is gone. If a file-system call fails the answer is an error or still right, never another snapshot. The newest snapshot of a user is found even when other users committed since.",
 ["inputs", "faults"], "all short hint texts, all hints around the existing ids, every single failing file-system call",
 "Hint files are torn or behind only after crashes at particular points; tests write well-formed hints.",
 [S+"core/utils/snapshot_manager.cpp", S+"core/utils/file_utils.cpp"],
 [("hint is confirmed against the directory", S+"core/utils/snapshot_manager.cpp"), ("version listing", S+"core/utils/file_utils.cpp")])
prop("C51", "A table commit is atomic under crashes and concurrent committers",
 "After a failure or crash at any point of a commit or overwrite, readers see either the table before or the complete table after it, and repeating it leaves it in the table exactly once. Of two concurrent committers at most one creates a given snapshot; the other retries on top of it, so that no file, record count, row id, watermark or log offset of either is lost or given twice.",
 ["crash_points", "faults", "schedules"], "all crash and failure points of a commit or overwrite, another committer acting at any point, merged and unmerged manifests",
 "Crash points between file operations and races between committers cannot be enumerated by the existing tests.",
 [S+"core/operation/file_store_commit_impl.cpp", S+"core/catalog/renaming_snapshot_commit.h", S+"core/operation/manifest_file_merger.cpp"],
 [("write manifests first, publish the snapshot by rename", S+"core/operation/file_store_commit_impl.cpp"), ("exists check and atomic store", S+"core/catalog/renaming_snapshot_commit.h"), ("merging manifests keeps the live files", S+"core/operation/manifest_file_merger.cpp")])
prop("C53", "Snapshot expiry never deletes a file a retained snapshot needs",
 "Expiring snapshots removes the oldest ones as far as the retention counts, time and delete limit say, and no others. Every file a retained snapshot reads stays, also when a call fails or the process stops at any point and expiry is rerun. When nothing fails, files only expired snapshots used are gone.",
 ["histories", "crash_points", "faults"], "all histories of up to 4 snapshots adding, removing and upgrading files, all retention settings, every failing call or crash point",
 "Needs history and crash enumeration.",
 [S+"core/operation/expire_snapshots.cpp"],
 [("data files removed by the next delta, manifests outside the skipping set", S+"core/operation/expire_snapshots.cpp")])
prop("C62", "Cleaning orphan files deletes no file that is still needed",
 "Cleaning orphan files never deletes a file a snapshot uses, a file younger than the threshold, a file the caller retains, or a file under an unknown name or directory, also when calls fail or another process commits or expires snapshots meanwhile. Tables with tags or branches are refused without deleting anything. When nothing fails, every older file that no manifest names is deleted, and the files reported are those deleted.",
 ["histories", "faults", "crash_points"], "all histories of up to 3 snapshots, every known place of an orphan file, all ages and thresholds, every failing call or crash point, another process acting at any call",
 "Failures and other processes between the calls cannot be enumerated by the existing tests.",
 [S+"core/operation/orphan_files_cleaner_impl.cpp"],
 [("list the files first, then collect the names all snapshots use", S+"core/operation/orphan_files_cleaner_impl.cpp")])
prop("C54", "The concurrent hash map loses no update",
 "Under every interleaving of inserts, finds and erases the concurrent map behaves as a sequential map.",
 ["schedules"], "all interleavings of 2-3 threads",
 "One schedule per run.",
 [S+"common/utils/concurrent_hash_map.h"],
 [("bucket-level locking in a third-party container", S+"common/utils/concurrent_hash_map.h")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
