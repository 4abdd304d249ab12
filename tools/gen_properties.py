#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid).
import json, os
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Shared storage lives, unchanged, until the last handle is gone",
 "While any handle to reference-counted byte storage exists in any thread (a SharedBytes, ByteData, StringData, queue chunk or bytes::Bytes made from it, in any mixture of clones and sub-views), the bytes that handle exposes are exactly the ones the storage was created with. The storage is released exactly once, after the last such handle has been dropped, and every access made through any handle happens before that release. No interleaving of clones, drops, moves and conversions in different threads causes a data race, a use after release, a double release or a leak.",
 ["schedules","histories"],"every interleaving of clone, slice, convert, read, hand-over and drop of handles to one buffer by several threads, under the Rust/C11 memory model",
 "No existing test starts a thread; single-threaded tests can exercise neither the interleaving nor the memory ordering of the reference counts, and a missing ordering is invisible on x86 in any case.",
 ["src/shared_bytes.rs","src/bytedata.rs","src/shared_bytes_builder.rs","src/bytes_1/shared_bytes.rs","src/bytes_1/bytedata.rs"],
 [("reference count in the heap header, incremented by Clone and decremented by Drop","src/shared_bytes.rs impl Clone/Drop for SharedBytes"),("the same count driven through a bytes::Bytes vtable","src/bytes_1/shared_bytes.rs SHARED_BYTES_BVT"),("kind dispatch of clone and drop","src/bytedata.rs impl Clone/Drop for ByteData")],
 [("refcnt","number of live handles to a heap block","src/shared_bytes.rs SharedBytesMeta")],
 ["as_slice() of every handle after every step","the allocator: release count, layout and happens-before of each block"])

p("C02","External owners are dropped exactly once, after the last view",
 "A value handed over through ByteData::from_external (or any conversion using it) stays alive and its bytes stay readable and unchanged as long as any clone or sub-view of that ByteData exists in any thread. It is dropped exactly once, after the last view is gone, by a thread on which that is allowed, with every access through a view happening before that drop, and nothing allocated for it leaks. Taking the owner back by type gives out the original value exactly once, only to the sole remaining view, and otherwise leaves all views intact.",
 ["schedules","histories","fault_sequences"],"every interleaving of cloning, slicing, reading, taking back and dropping views of an external owner across threads, for owners whose slice changes identity or whose destructor panics",
 "Tests use one thread and one Vec owner; they never race two last drops, a drop against a take-back, or an owner whose own methods misbehave.",
 ["src/external.rs","src/bytedata.rs","src/bytes_1/external.rs"],
 [("boxed owner with operations table and reference count","src/external.rs ExtBytesWrapper/ExternalOps"),("per-view heap reference","src/external.rs ExtBytesRef"),("type-checked take back","src/external.rs TakeExtBytesInner, ExtBytes::take_inner/with_inner")],
 [("ref_count","number of live views of the owner","src/external.rs")],
 ["drop count of the owner","as_slice() of each view","Vec::from / Bytes::from of a view"])

p("C03","Taking storage back for writing never disturbs another handle",
 "Turning a handle back into something writable or owned (SharedBytesBuilder from SharedBytes, Vec from ByteData, String from StringData, Bytes/BytesMut conversions) yields exactly the bytes the handle showed, and later writes through it are never visible through any other handle. In-place reuse only ever happens when no other handle exists in any thread and everything other handles did happens before the first write. is_unique reports true only when no other handle exists.",
 ["schedules","histories"],"every interleaving of a take-back with clones, reads and drops of other handles in other threads, for every sub-view of the storage",
 "Needs a reader in another thread racing with the take-back; tests are single-threaded and only take back whole buffers.",
 ["src/shared_bytes.rs","src/bytedata.rs","src/external.rs","src/shared_bytes_builder.rs"],
 [("uniqueness test before reuse","src/shared_bytes.rs From<SharedBytes> for SharedBytesBuilder"),("take-back of external owners","src/external.rs take_inner"),("Vec conversion","src/bytedata.rs From<ByteData> for Vec<u8>")],
 [("refcnt","1 means exclusive","src/shared_bytes.rs SharedBytesMeta")],
 ["contents of the taken-back value","contents of every other handle after writes through it","race detector on every byte"])

p("C04","A builder holds exactly what was appended, whatever happens while growing",
 "After any sequence of appends (slices, iterators with whatever truthful size hint, formatting, vectored and buffer-trait writes), reserves, truncations, clears and in-place edits, a SharedBytesBuilder or SharedStrBuilder exposes exactly the bytes that sequence denotes, its reported length matches, its capacity is at least its length, and building, converting or rebuilding it preserves them. The storage honours the requested alignment. Growing that fails leaves the earlier contents intact, and dropping the builder at any point releases its storage exactly once with the layout it was allocated with.",
 ["histories","fault_sequences"],"every sequence of builder operations with an allocation failure at any allocation or reallocation",
 "Tests append a few short literals and never reach growth boundaries in combination with truncation, alignment, rebuild or a failing allocator.",
 ["src/shared_bytes_builder.rs","src/shared_str_builder.rs","src/bytes_1/shared_bytes_builder.rs","src/std.rs"],
 [("capacity check and realloc","src/shared_bytes_builder.rs reserve/extend_from_slice"),("hand-over of the block to the shared handle","src/shared_bytes_builder.rs build"),("BufMut","src/bytes_1/shared_bytes_builder.rs")],
 [("off/len","end of the written region / allocated length","src/shared_bytes_builder.rs SharedBytesBuilder")],
 ["as_slice(), len(), capacity(), build()","layout given to dealloc/realloc"])

p("C05","A byte queue delivers every byte exactly once and in order",
 "After any history of pushes at either end, pops, consumes, slices, appends, extends, splits, range replacements, drains and conversions, a ByteQueue holds exactly the byte sequence that history denotes: nothing lost, duplicated or reordered, with len, is_empty, chunk count, front and back consistent with it. Handing queues, their slices and their chunks between threads preserves this, and everything the queue held is released exactly once.",
 ["histories","schedules"],"every history of queue operations, including crossings of the internal block size in both directions, by producers and consumers in different threads",
 "The two queue tests run one short fixed history each; block boundaries, wrap-around, appends of partially consumed queues and multi-chunk splits are not reached.",
 ["src/queue/byte_queue.rs","src/queue/linked_root.rs","src/queue/linked_node_leaf.rs","src/queue/linked_node_data.rs"],
 [("inline chamber plus linked list of ring blocks","src/queue/linked_root.rs"),("ring block","src/queue/linked_node_data.rs"),("byte accounting","src/queue/byte_queue.rs remain")],
 [("remain","bytes held","src/queue/byte_queue.rs"),("count","chunks held","src/queue/linked_root.rs")],
 ["len(), chunk_len(), iteration, comparison with a plain byte vector after every operation"])

p("C06","A string queue always holds the denoted text, as valid UTF-8 chunks",
 "After any history of operations on a StringQueue (including ones that are refused or panic because a position is not a character boundary), it holds exactly the text that history denotes and every chunk, slice, drained or split part is valid UTF-8. A refused operation leaves the text unchanged. Characters and character positions come out in order, exactly once, also when a chunk ends next to a multi-byte character.",
 ["histories","fault_sequences"],"every history of string queue operations over multi-byte text, with every position argument, legal or not",
 "One formatting test and the nom tests touch string queues with ASCII; boundary refusals and multi-byte chunk edges are never exercised.",
 ["src/queue/string_queue.rs","src/queue/char_iter.rs","src/queue/drain.rs","src/queue/linked_iter.rs"],
 [("boundary checks before delegating to the byte queue","src/queue/string_queue.rs slice/split_off/drain"),("char iterators over chunks","src/queue/char_iter.rs")],
 [],["chunks(), chars(), Display, String::from, returned parts"])

p("C07","Abandoned, leaked or half-used iterators and drains leave queues sound",
 "However far an iterator, drain or split over a queue is advanced, from whichever end, and whether it is then dropped, leaked or moved to another thread, it has produced exactly the denoted prefix in order, its remaining length is reported exactly, and the queue afterwards holds a definite sequence: for a drain that was dropped, exactly the bytes outside the drained range. No chunk is released twice, read after release, or (unless the iterator itself was leaked) left unreleased.",
 ["histories","fault_sequences"],"every stopping point of every iterator and drain over every queue shape, including mem::forget and a panic in the consumer",
 "Tests run iterators to completion on tiny queues; early drop, leak and double-ended mixes are not tested.",
 ["src/queue/drain.rs","src/queue/byte_iter.rs","src/queue/chunk_iter.rs","src/queue/linked_iter.rs"],
 [("drain commits on drop","src/queue/drain.rs impl Drop"),("owning iterators hold the queue root","src/queue/chunk_iter.rs, src/queue/byte_iter.rs")],
 [],["items produced, size_hint/len, queue contents afterwards, allocator at the end"])

p("C08","Reading hands out every byte exactly once, whatever the reads look like",
 "Reading from a ByteData, SharedBytes or ByteQueue through Read, BufRead or Buf, with any mixture of buffer sizes, vectored reads, read_until, peeks and partial consumes, yields the original bytes in order, exactly once, then end of input; the reported count equals the bytes delivered, no call panics or touches memory outside the caller's buffer, and what has been reported consumed is exactly what is gone; when memory for the caller's buffer runs out in read_until or read_to_end, only what the buffer received is gone.",
 ["histories","inputs","fault_sequences"],"every sequence of read calls, buffer fragmentations, short reads and failed allocations against every representation and chunking of the data",
 "No test calls any Read, BufRead or Buf method on these types.",
 ["src/std.rs","src/bytes_1/bytedata.rs","src/bytes_1/shared_bytes.rs","src/bytes_1/queue.rs"],
 [("std readers","src/std.rs impl Read/BufRead"),("Buf cursors","src/bytes_1/*.rs impl Buf")],
 [],["bytes placed in caller buffers, return values, remaining()"])

p("C09","Writing accepts bytes exactly as reported",
 "Every byte that a write to a SharedBytesBuilder, SharedStrBuilder, ByteQueue or StringQueue (io::Write, fmt::Write, vectored writes, Extend, BufMut) reports as accepted is appended exactly once and in order, and nothing else changes. If the data source fails or panics midway, what was accepted before stays, the length equals what is readable, and the writer remains usable.",
 ["histories","fault_sequences"],"every sequence of writes with every fragmentation and every failure point of formatting code, iterators and source buffers",
 "Only the format macros are tested, with values that cannot fail; Write, vectored writes, Extend and BufMut are not called.",
 ["src/std.rs","src/queue/byte_queue.rs","src/queue/string_queue.rs","src/shared_bytes_builder.rs","src/shared_str_builder.rs","src/bytes_1/shared_bytes_builder.rs","src/macros.rs"],
 [("io::Write","src/std.rs"),("fmt::Write and Extend","src/queue/byte_queue.rs, src/shared_bytes_builder.rs"),("BufMut","src/bytes_1/shared_bytes_builder.rs")],
 [],["contents and length after every call, accepted counts"])

p("C10","HTTP bodies stream exactly the data, with exact framing information",
 "Polling a ByteData, SharedBytes or ByteQueue as an HTTP body (both http-body versions), under any polling schedule, move between tasks, early drop or interleaved change of the remaining data, yields data frames whose concatenation is exactly the data, none empty, then ends and stays ended. Before every poll the size hint is exactly the bytes still to come, and end-of-stream is reported exactly when none remain.",
 ["schedules","histories","inputs"],"every polling schedule, data length (including around the frame limit) and chunking",
 "No test polls a body; lengths above the frame limit and empty chunks are never reached.",
 ["src/http_body_04.rs","src/http_body_1.rs"],
 [("poll_data / poll_frame cut at most 65535 bytes per frame","src/http_body_1.rs, src/http_body_04.rs"),("size_hint and is_end_stream","same files")],
 [],["frames, size_hint, is_end_stream around each poll"])

p("C11","Filling spare capacity keeps exactly what the filler reported",
 "When caller code fills a builder's spare capacity (synchronously, asynchronously or through a borrowed cursor), the builder afterwards holds its earlier bytes followed by exactly the bytes the filler reported as written. If the filler panics, its future is cancelled at any suspension point, leaked, or it reports nothing, the earlier bytes are unchanged and the builder stays usable and releases its storage once with the right layout.",
 ["schedules","fault_sequences","histories"],"every amount filled, every suspension schedule and every cancellation or panic point of the filler",
 "No test uses these entry points; cancellation and panic points cannot be sampled by a call that always succeeds.",
 ["src/shared_bytes_builder.rs"],
 [("apply_unfilled / apply_unfilled_async / apply_borrowed_buf","src/shared_bytes_builder.rs")],
 [],["contents, length, capacity, layout at release"])

p("C12","Interning behaves as one shared set, under any concurrency",
 "Concurrent interning, lookup, clearing, cloning and first use of a StaticInterning by several threads behaves, for every value, as some sequential order of those calls on a set, respecting the order each thread and each hand-over between threads imposes: a value interned by the table and not cleared since is found by every later call through the same table or a clone of it, returned data is byte-equal to what was asked for, and values too long for the table are refused, unchanged, by the fallible calls and never stored (values short enough to be held inline are handed back without using the table). Between clears, equal values give the same stored bytes. The table and everything in it are released exactly once, after the last user.",
 ["schedules","histories"],"every interleaving of intern, get, clear, clone, drop and the initialisation race across threads",
 "The two tests are single-threaded; the initialisation race and concurrent clear or clone cannot occur in them.",
 ["src/interning/static.rs","src/interning/byte_interning.rs"],
 [("table created once by compare-and-swap","src/interning/static.rs init"),("sharded concurrent map","dashmap"),("leak to static lifetime / sharing","src/interning/static.rs intern")],
 [("table pointer","null until first use","src/interning/static.rs StaticInterning")],
 ["results of every call, recorded with invocation and response order; identity of returned storage; allocator at the end"])

p("C13","A failed allocation never corrupts or leaks data",
 "If an allocation fails at any point inside any operation that allocates (creating, cloning, converting, growing, queueing, splitting, freezing, interning) and the failure unwinds to the caller or is reported by it, then every other value that existed before still exposes exactly its old bytes, and the value being changed holds only bytes it held or was being given, in their order, none invented or repeated. Reported lengths and counts match what is readable, everything remains usable, and all storage is released exactly once when the values are dropped.",
 ["fault_sequences","histories"],"an allocation failure at every allocation of every operation in every history",
 "The global allocator never fails under test.",
 ["src/shared_bytes.rs","src/shared_bytes_builder.rs","src/external.rs","src/bytedata.rs","src/queue/linked_root.rs","src/queue/linked_node_leaf.rs","src/queue/byte_queue.rs"],
 [("handle_alloc_error before state is changed","src/shared_bytes_builder.rs, src/queue/linked_node_leaf.rs"),("order of state updates around allocations","src/queue/linked_root.rs, src/queue/byte_queue.rs")],
 [],["all live values after the fault, allocator at the end"])

p("C14","Faulty caller code cannot corrupt containers",
 "When code supplied by the caller (external owners' slice and drop functions, predicates, iterators, conversions, formatting implementations, input buffers) panics, reports errors, lies about sizes or re-enters, every container involved still exposes a sequence denoted by the steps that completed, stays usable, and releases everything exactly once; data handed to the caller code before the fault is neither duplicated nor lost (a destructor that panics may take with it the chunk or range being removed, nothing else).",
 ["fault_sequences","histories"],"a panic, error or lie at every call into caller code, in every container state",
 "Tests use only well-behaved callbacks.",
 ["src/external.rs","src/queue/byte_queue.rs","src/queue/string_queue.rs","src/bytedata.rs","src/stringdata.rs","src/shared_bytes_builder.rs"],
 [("external owner operations table","src/external.rs"),("take_while / find predicates","src/queue/byte_queue.rs, src/bytedata.rs"),("Extend/FromIterator loops","src/queue/*.rs, src/bytedata.rs")],
 [],["contents after the unwind, drop counters, allocator at the end"])

p("C15","Conversions to and from bytes::Bytes conserve content and ownership",
 "Converting ByteData, SharedBytes or ByteQueue to bytes::Bytes and back, and using the result (clone, slice, split, advance, into Vec or BytesMut) in any threads, preserves the exact bytes at every step. The storage stays alive while either side holds it and is released exactly once afterwards, with nothing leaked and no bytes changed by writes to data taken out of the other side.",
 ["schedules","histories"],"every history of conversions and uses on both sides, interleaved across threads, over every data representation",
 "Tests convert one short buffer in one direction and compare it once; into-Vec, into-BytesMut, clones across threads and release are not covered.",
 ["src/bytes_1/mod.rs","src/bytes_1/shared_bytes.rs","src/bytes_1/bytedata.rs","src/bytes_1/external.rs","src/bytes_1/queue.rs"],
 [("hand-made bytes vtable","src/bytes_1/shared_bytes.rs SHARED_BYTES_BVT"),("static detection","src/bytes_1/bytedata.rs From<Bytes>")],
 [],["contents on both sides, allocator at the end"])

p("C16","Deserialising keeps exactly what the stream delivered, or fails cleanly",
 "Whichever way a data format delivers bytes or text (borrowed, transient, owned, optional, sequence elements), the deserialised ByteData, StringData or SharedBytes equals what was delivered and does not depend on the format's transient buffers afterwards. When the stream fails at any point the error is reported and nothing leaks; serialising gives the same bytes back.",
 ["fault_sequences","inputs","histories"],"every delivery mode and every failure point of the delivering format, with its transient buffers overwritten after use",
 "Doc tests deserialise from one well-behaved in-memory deserializer.",
 ["src/serde_1/mod.rs","src/serde_1/bytedata.rs","src/serde_1/stringdata.rs","src/serde_1/shared_bytes.rs"],
 [("visitors for borrowed, transient and owned data","src/serde_1/bytedata.rs, src/serde_1/stringdata.rs"),("optional and sequence adapters","src/serde_1/mod.rs")],
 [],["deserialised values after the source buffer is overwritten, allocator at the end"])

p("C17","Every view shows exactly the requested sub-range of its source",
 "For data in any representation (inline, static, borrowed, shared, external), any history of slicing, splitting, taking, advancing, trimming, re-owning and cloning yields handles that each show exactly the sub-range the history denotes, with lengths and emptiness to match, however many other handles are created or dropped meanwhile. A range that is out of bounds, reversed or (for text) off a character boundary is refused by a panic, never by wrong data, and leaves the other handles intact.",
 ["histories","inputs","fault_sequences"],"every history of view operations with every form of range, including refused ones and extreme bounds",
 "Tests slice once or twice with small fixed ranges; extreme bounds, refusals and long histories per representation are not covered.",
 ["src/bytedata.rs","src/stringdata.rs","src/shared_bytes.rs","src/external.rs","src/byte_chunk.rs"],
 [("per-representation slicing","src/bytedata.rs sliced/into_sliced/make_sliced/into_shared_range"),("offset arithmetic","src/shared_bytes.rs, src/external.rs")],
 [],["as_slice(), len(), is_empty() of all handles after each operation"])

p("C18","Parsers see what has arrived, however it arrived",
 "A nom parser given data as it arrives from a connection, as ByteData, StringData, ByteQueue or StringQueue, in whatever pieces and representation, gives the same answer as the same parser on the same bytes or text in one plain slice: the same value and remainder, an error of the same kind (recoverable or final) in the same cases, and a request for more only when the flat parser asks too, never for more than it asks. Parsing leaves the input and every other handle intact, also when a predicate panics or memory runs out in the middle, and once everything has arrived the whole stream has been parsed.",
 ["histories","inputs","fault_sequences"],"every division of a stream into pieces, every arrival and parse history, and every end of the connection in the middle",
 "The tests run three parsers over two literals that arrive whole; chunk boundaries, incomplete input, alternatives and multi-byte text never come up.",
 ["src/nom_7/mod.rs","src/nom_7/bytedata.rs","src/nom_7/bytequeue.rs","src/nom_7/stringdata.rs","src/nom_7/stringqueue.rs"],
 [("positions and splits","src/nom_7/*.rs InputTakeAtPosition, InputTake, InputIter"),("comparison across chunks","src/nom_7/*.rs Compare, FindSubstring, FindToken")],
 [],["parser results compared with nom on the flat bytes, handles after each step, allocator at the end"])

p("C20","Records framed out of a stream are the records sent",
 "A reader that takes records out of an arriving stream, by separator, line, length prefix or character class, with the find, starts_with/ends_with, split, take, slice and consume operations of ByteData, StringData, ByteQueue and StringQueue, gets the records that were sent, complete and in order, however the stream was cut into pieces, represented, delayed or ended. Every search, prefix or suffix test, take_while and split in between answers as on the flat bytes or text and leaves the data as it was or cut where it says; parts stay intact after the stream has moved on or they have gone to another thread. A predicate that panics or an allocation that fails loses nothing the caller still holds, and once everything has arrived the reader finishes.",
 ["histories","inputs","schedules","fault_sequences"],"every stream, division into pieces, framing, order of search and take operations, end of the connection, and hand-over of the parts",
 "The tests try single literals that arrive whole; separators across chunk boundaries, false starts, incremental searches, partial splits and interrupted predicates are not covered.",
 ["src/queue/byte_queue.rs","src/queue/string_queue.rs","src/queue/split.rs","src/bytedata.rs","src/stringdata.rs","src/lib.rs"],
 [("chunked search","src/queue/byte_queue.rs find_slice_after, exists_at"),("split iterators","src/queue/split.rs; ByteData::split_on, split_once_on"),("takes","take_while, take_line, take_bytes, split_off, consume, drain")],
 [],["records compared with those sent, answers with the flat stream, values after each step, allocator at the end"])
p("C21","Equal contents are the same key, whatever holds them",
 "Equality, ordering and hashing of ByteData, StringData, SharedBytes, ByteQueue and StringQueue, and their comparisons with each other and with plain slices, strings and vectors, agree with those of the flat bytes, whatever the representation, the chunking, the history and the thread a value comes from. Hash tables (with any hasher) and ordered tables keyed by them behave as if keyed by the flat bytes, also when looked up by borrowed slice or str; sorting, copying, re-chunking and handing over to another thread change nothing about that.",
 ["histories","inputs","schedules"],"every pair of values in every representation and with every history, every sequence of table operations, every hasher",
 "The tests compare a few equal literals in one representation; differently chunked equal queues, prefixes, bytes above 0x7f and hashing are not covered.",
 ["src/bytedata.rs","src/stringdata.rs","src/shared_bytes.rs","src/queue/byte_queue.rs","src/queue/string_queue.rs","src/lib.rs"],
 [("comparison and hashing","impl PartialEq, PartialOrd, Ord, Hash, Borrow in the listed files"),("constant comparison","src/lib.rs const_eq and its callers eq_const, eq_slice")],
 [],["tables compared with a model keyed by flat bytes after each operation, every comparison with that of the flat bytes"])
p("C23","Printing a value prints its contents, into any sink",
 "Display, Debug and hexadecimal rendering of ByteData, StringData, SharedBytes (hexadecimal), ByteQueue, StringQueue, ByteChunk, the builders and the byte string renderers depend only on the contents (Debug of a StringQueue lists its chunks): the output is that for the flat bytes or text, with width, fill, alignment and precision, where they count, applied once to the whole. A sink that refuses, stalls, panics or runs out of memory at any point has received the beginning of exactly that output, its refusal is reported and nothing more is written to it; printing leaves the value and everything that shares its storage intact, also while other threads use or drop copies of it. The same holds for nom's hex dumps (to_hex, to_hex_from).",
 ["histories","inputs","schedules","fault_sequences"],"every value, chunking and history, every format, every sink and point of refusal",
 "The tests render a few literals with default formats into strings that never fail; no test makes a hex dump.",
 ["src/byte_string_render.rs","src/queue/byte_queue.rs","src/queue/string_queue.rs","src/bytedata.rs","src/stringdata.rs","src/shared_bytes.rs","src/shared_bytes_builder.rs","src/shared_str_builder.rs","src/byte_chunk.rs","src/nom_7/bytequeue.rs"],
 [("renderers","src/byte_string_render.rs"),("chunked renderers","impl Display, Debug, LowerHex, UpperHex in src/queue/*.rs"),("sinks","impl fmt::Write in src/queue/*.rs, src/shared_*_builder.rs, src/byte_chunk.rs")],
 [],["what each sink took compared with the rendering of the flat bytes, values afterwards, allocator at the end"])

p("C24","Generated values agree with the flat data",
 "A value of any type of the library drawn through Arbitrary from a supply of bytes holds what the same draw gives as flat bytes or text (a run of the supply, at most 14 bytes where inline, or the characters drawn; queues: those of their chunks in the order drawn), leaves the supply where that draw leaves it, and is a valid value of its type. Drawing ends and takes memory in proportion to the supply, however short or long that is, also when all that is left is asked for. A failed allocation in the middle leaks nothing, and values drawn before, among them those that borrow the supply, stay intact while others are used, changed, dropped or handed to other threads.",
 ["histories","inputs","schedules","fault_sequences"],"every supply, sequence of draws of every type with and without taking the rest, and point where an allocation fails",
 "Nothing is drawn in any test.",
 ["src/arbitrary_1/bytedata.rs","src/arbitrary_1/stringdata.rs","src/arbitrary_1/shared_bytes.rs","src/arbitrary_1/byte_queue.rs","src/arbitrary_1/string_queue.rs"],
 [("generation","src/arbitrary_1 impl Arbitrary")],
 [],["values drawn compared with the flat draw, what is left of the supply, allocator at the end"])
# pure functions of their inputs: not claimed
p("C22","Compile-time concatenation and UTF-8 helpers agree with the standard library",
 "The const concatenation macros, const comparison helpers and const UTF-8 decoding give the same results as the standard library's run-time equivalents on every input.",
 ["inputs"],"every input string","Tests use literals.",
 ["src/macros.rs","src/char_indicies.rs","src/lib.rs"],[("const helpers","src/lib.rs, src/char_indicies.rs, src/macros.rs")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
