AI = "static analysis: path-sensitive abstract interpretation of the current source (value-numbered byte strings, interval facts, loop fixpoints)"
TS = "static analysis: typestate/effect automata evaluated over the effect traces of a path-sensitive abstract interpretation"
NOTE = "Abstract interpretation of /repo's current source with loops closed by induction/fixpoint; decides the clauses listed as rules in the evidence. "

prop("C01", "A stored object's id is the SHA-1 of its header and content, complete",
     "Whenever storing an object succeeds, the resulting id is the SHA-1 of '<type> <size>\\0' followed by exactly the content read from the source, the content has exactly the declared size, and the object file published under the name of that id holds the complete zlib compression of exactly those bytes. Streams which already carry an id keep it, and their bytes are copied unchanged until the source ends. A source which delivers less than declared is refused, and one which delivers what was declared is not; never more than the declared size is read.",
     ["inputs", "fault_sequences"], "for every type, size, content, chunking of the source's reads, and partial write of the operating system",
     "Tests store a handful of small objects from in-memory streams whose reads always return what was asked for; multi-chunk copies, short reads, and partial writes are not exercised.",
     ["gitdb/db/loose.py", "gitdb/fun.py", "gitdb/stream.py"],
     [("header and content go through one write function", "gitdb/fun.py write_object/stream_copy"), ("hash, compress, write in one place", "gitdb/stream.py FDCompressedSha1Writer"), ("size check and publication", "gitdb/db/loose.py LooseObjectDB.store")],
     AI + "; loop-inductive equality of hashed, compressed, written and read byte strings",
     NOTE + "zlib, hashlib and the operating system are modelled by their documented contracts.",
     ["return value of store", "file under the database root"])

prop("C02", "Objects become visible only complete, by an atomic rename",
     "An object file appears under its final name only by renaming a temporary file which lies inside the database root and has been completely written, flushed and closed before. Nothing is written through the final name, and nothing is written after the publication.",
     ["crash_points", "schedules", "inputs"], "for every point at which the process may die or another process may look, and every content",
     "Crash points and concurrent readers are not tested at all: tests only look at the directory after a successful store.",
     ["gitdb/db/loose.py", "gitdb/stream.py", "gitdb/util.py"],
     [("temporary file in the root, rename", "gitdb/db/loose.py LooseObjectDB.store"), ("flush on close", "gitdb/stream.py FDCompressedSha1Writer.close")],
     TS, NOTE + "Ordering of effects in the program, not of disk blocks: the code never claims to fsync.",
     ["effects on the file system"])

prop("C03", "A failed store leaves nothing behind and is reported",
     "If reading the source, compressing, writing, closing, or publishing fails, storing an object raises, removes its temporary file, releases its descriptor, publishes no partial object, and leaves the id of the caller's stream unset.",
     ["fault_sequences"], "for a failure at each single effect of a store, after any number of chunks, with and without partial writes",
     "Faults of the source or the operating system are not injected by any test.",
     ["gitdb/db/loose.py", "gitdb/stream.py", "gitdb/fun.py"],
     [("cleanup handlers", "gitdb/db/loose.py LooseObjectDB.store"), ("descriptor release", "gitdb/stream.py FDCompressedSha1Writer.close, FDStream.close")],
     TS + "; every effect forks an exceptional path",
     NOTE + "One failing effect per path (a failing cleanup is out of scope).", ["effects on the file system", "exceptions"])

prop("C04", "An existing object is never replaced, and object files end up read-only",
     "If the object exists already, storing it again neither replaces, modifies nor removes the existing file, and discards the new copy. Every successful store to a file leaves the object file with mode 0444; if the mode can't be set after all retries, an error is raised.",
     ["histories", "inputs"], "for every sequence of stores, with or without a given id, and every number of failed attempts to change the mode",
     "Tests store each object once in a fresh directory and never look at modes or at the existing file.",
     ["gitdb/db/loose.py"], [("existence check before the rename, chmod with retries", "gitdb/db/loose.py LooseObjectDB.store")],
     TS, NOTE, ["effects on the file system"])

prop("C05", "Custom output streams receive everything and leave the disk alone",
     "While a custom output stream is set, storing an object has no effect on the file system, passes exactly the object's header and content to that stream, and yields the same id as a store to a file; the hashing writers report the length they were given and the digest of exactly what they were given. Setting a stream returns the previous one, and a stream which can't produce an id is rejected with a TypeError without replacing the current one. The memory database refuses custom output streams.",
     ["inputs", "histories"], "for every object, every chunking, and every sequence of stream changes",
     "Tests use one writer with single-chunk content.",
     ["gitdb/db/loose.py", "gitdb/db/base.py", "gitdb/db/mem.py", "gitdb/stream.py"],
     [("output stream switch", "gitdb/db/base.py ObjectDBW"), ("writers", "gitdb/stream.py Sha1Writer, FlexibleSha1Writer, ZippedStoreShaWriter")],
     AI, NOTE, ["return values", "calls on the custom stream"])

prop("C06", "Partially accepted writes are completed or reported",
     "Whenever the operating system accepts only part of a buffer, the descriptor-based writers either write the rest or raise; no byte is silently lost, neither in the middle of a stream nor in the remainder written on close.",
     ["fault_sequences", "inputs"], "for every buffer and every sequence of partial writes",
     "Partial writes don't happen on the local file systems the tests run on.",
     ["gitdb/stream.py"], [("write loop", "gitdb/stream.py FDStream.write"), ("length comparison", "gitdb/stream.py FDCompressedSha1Writer.write/close")],
     AI + " with forked partial writes", NOTE, ["bytes accepted by the operating system"])

prop("C09", "Delta commands are decoded and applied exactly",
     "Applying a delta produces exactly the concatenation its commands describe, for every combination of the seven offset/size bits: a copy takes [offset, offset+size) of the source with both values assembled little-endian from the bytes present and size 0 meaning 65536; an insert takes the following 1-127 bytes; the position advances by exactly the bytes of the command. Opcode 0 and copies which reach outside of the source are refused, success implies that the delta was consumed exactly, and valid deltas are accepted. The chunk representation of a delta describes the same copies and inserts.",
     ["inputs"], "for every source, every delta, every opcode and flag combination",
     "Tests apply a few deltas taken from fixture packs; most of the 128 flag combinations, size 0, and malformed commands never occur in them.",
     ["gitdb/fun.py"],
     [("opcode interpreter", "gitdb/fun.py apply_delta_data"), ("the same decoder building chunks", "gitdb/fun.py connect_deltas"), ("chunk application", "gitdb/fun.py delta_chunk_apply, DeltaChunkList")],
     AI + "; the command decoder is derived from the format, one obligation per path through one command and per flag combination, closed by the loop invariant",
     NOTE, ["bytes passed to write", "exceptions"])

prop("C10", "A delta chain is applied completely, in order, and verified",
     "A delta-chain reader applies the deltas from the last one in the list to the first, each exactly once, the first of them to the complete base and each other one to the complete result before it; each delta's commands are exactly the bytes behind its two sizes, up to the end of its stream. The buffers are large enough for the base and every intermediate result. A result is only delivered if every declared source and target size matches the actual one, and chains whose sizes agree are not refused. The size, type and content delivered are those of the last result and of the base's type; read never returns more than requested or left and continues where the previous one ended; seek(0) starts over and every other seek is refused with a ValueError. A list of less than two streams, or one ending in a delta, is refused with a ValueError.",
     ["inputs", "histories"], "for every content, size and chunking of the streams, in chains of up to three (thorough: five) deltas, and every sequence of up to three reads",
     "Tests only resolve the chains of two small fixture packs and read each result in one call; intermediate results larger than base and target, headers at chunk borders, and lying sizes don't occur.",
     ["gitdb/stream.py", "gitdb/fun.py", "gitdb/util.py"],
     [("application with two swapped buffers", "gitdb/stream.py DeltaApplyReader._set_cache_brute_"), ("bounded reads", "gitdb/stream.py DeltaApplyReader.read/seek"), ("construction", "gitdb/stream.py DeltaApplyReader.new")],
     AI + "; buffers, streams and declared sizes are tracked as symbolic strings with loop-inductive equality",
     NOTE + "Chain length is enumerated (1-3 quick, 1-5 thorough); everything else is symbolic. apply_delta_data and msb_size are replaced by their contracts (C09, C12).",
     ["read results", "size", "exceptions"])

prop("C12", "Pack entry headers are decoded and encoded exactly",
     "Entry headers are decoded exactly as the pack format defines them: type from bits 4-6 of the first byte, size little-endian from its low four bits and seven bits of each following byte up to and including the first one without the top bit. Encoding a type and size yields the header which decodes to them. Delta sizes are decoded little-endian from seven bits per byte, and are only refused if the data ends before the last of their bytes; the distance of an offset delta is decoded big-endian with one added per continuation byte; the base id of a reference delta is the 20 bytes behind the header. The description of the entry at an offset carries this offset, its type, size and base reference, and its data begins right behind them.",
     ["inputs"], "for every header content, type, size up to nine (thorough: twelve) bytes, and offset",
     "Fixture packs contain only small objects near their bases: headers of more than three bytes, zero groups, large distances, and reference deltas never occur in them.",
     ["gitdb/fun.py", "gitdb/pack.py"],
     [("entry header codec", "gitdb/fun.py pack_object_header_info, create_pack_object_header"), ("delta sizes", "gitdb/fun.py msb_size"), ("entry description", "gitdb/pack.py pack_object_at")],
     AI + "; results are compared with bit-exact symbolic reference decoders, one obligation per number of bytes", NOTE + "Headers of up to nine (thorough: twelve) bytes; contents are symbolic.",
     ["return values", "attributes of the entry"])

prop("C13", "Pack index files are read and written exactly as the format defines",
     "For an index of version 1 or 2, the number of objects is the last fanout entry, and id, checksum and offset of every entry are those stored at the places the format defines for its version, with 64-bit offsets taken from the large offset table; version 1 entries have checksum 0; offsets() yields the offset of each entry in index order; the pack and index checksums are the last 40-20 and 20 bytes. Versions other than 1 and 2 are refused. A written index consists of signature, version, cumulative counts per first id byte, ids in ascending order, checksums and offsets in the same order, 64-bit offsets where they don't fit into 31 bits, the pack checksum, and the SHA-1 of all bytes before, which is also returned.",
     ["inputs"], "for every index content and entry number, and for written indices of up to three objects with every combination of small and large offsets",
     "Fixture indices contain no offsets of 2 GiB and above, and written indices are only compared with fixtures.",
     ["gitdb/pack.py"],
     [("version dependent accessors", "gitdb/pack.py PackIndexFile"), ("writer", "gitdb/pack.py IndexWriter.write")],
     AI + "; accessor results are symbolic slices of the file compared with the layout's reference positions", NOTE + "Reading is symbolic in content and entry number; writing enumerates the first bytes of up to three ids, other content is symbolic.",
     ["return values", "bytes written"])

prop("C14", "Looking up an id in a pack index finds exactly what is there",
     "Looking up a 20-byte id in a pack index of either version returns the number of an entry with exactly this id if the index contains one and None if it does not, for every sorted index consistent with its fanout table: only the entries the fanout table assigns to the first byte are compared, each comparison excludes the compared entry and everything on the wrong side of it and nothing else, and the search terminates.",
     ["inputs"], "for every index content, version, id and number of entries",
     "Tests look up the ids contained in a few small fixture indices; absent ids, ids at bucket borders, first byte 0 or 255, and single-entry buckets are not covered systematically.",
     ["gitdb/pack.py"], [("binary search", "gitdb/pack.py PackIndexFile.sha_to_index"), ("fanout bounds", "gitdb/pack.py PackIndexFile._fanout_table")],
     AI + "; the search loop is closed by the invariant that everything outside [lo, hi) is excluded by an order fact", NOTE, ["return value of sha_to_index"])

prop("C15", "Short ids are resolved completely, and ambiguity is reported",
     "A short id resolves to the id which starts with its digits: a trailing half byte is compared by its upper four bits. In an index, the entry found is the first one not smaller than the short id, AmbiguousObjectName is raised iff it and its successor both match, and None is returned iff none matches; less than two bytes raise ValueError. Across the packs of a PackedDB, the ids of a LooseObjectDB, and all members of a compound database at every depth: the id is returned iff exactly one distinct id is found, AmbiguousObjectName is raised iff there are different ones or a member is ambiguous, BadObject iff there is none. Digits may be given as str or bytes, in even or odd number.",
     ["inputs"], "for every index content, number of digits, set of matching members, packs and loose objects",
     "Tests abbreviate ids of fixture packs to a few lengths; ambiguity between packs or databases, odd lengths, and matches at bucket borders don't occur.",
     ["gitdb/pack.py", "gitdb/fun.py", "gitdb/db/pack.py", "gitdb/db/loose.py", "gitdb/db/base.py"],
     [("index", "gitdb/pack.py PackIndexFile.partial_sha_to_index"), ("digit comparison", "gitdb/fun.py is_equal_canonical_sha"), ("packs", "gitdb/db/pack.py PackedDB.partial_to_complete_sha"),
      ("loose objects", "gitdb/db/loose.py LooseObjectDB.partial_to_complete_sha_hex"), ("members", "gitdb/db/base.py CompoundDB.partial_to_complete_sha_hex")],
     AI + "; one obligation per outcome, comparing it with what the path learned about every candidate",
     NOTE + "Up to two (thorough: three) packs and loose objects and four members; answers of the parts are replaced by predicates. Digits are lower case.",
     ["return values", "exceptions"])

prop("C21", "Missing objects are reported uniformly and never remembered",
     "For packs, loose objects, and memory: has_object and 'in' return True if the object is contained and False if it isn't, and never fail because of a missing object; info and stream raise BadObject iff the object is missing (also if its file disappears while it is opened), and otherwise return what belongs to the requested id, from a pack which contains it. A miss is not remembered: an object which appears later is found (in packs: after update_cache). A loose object which may not be opened with O_NOATIME is opened without.",
     ["inputs", "histories", "fault_sequences", "schedules"], "for every id, every assignment of objects to packs, every number of earlier queries, and both answers of every file system query",
     "Tests query present objects and one or two absent ones right after construction; changes between queries, vanishing files, and refused O_NOATIME are not tested.",
     ["gitdb/db/pack.py", "gitdb/db/loose.py", "gitdb/db/mem.py", "gitdb/db/base.py"],
     [("packs", "gitdb/db/pack.py PackedDB._pack_info"), ("loose objects", "gitdb/db/loose.py LooseObjectDB._map_loose_object, readable_db_object_path"), ("memory", "gitdb/db/mem.py MemoryDB.stream"), ("membership", "gitdb/db/base.py ObjectDBR.__contains__")],
     AI + " over sequences of queries; containment is a predicate of pack or file, id and time", NOTE + "Up to two (thorough: three) packs; sequences of up to four queries.",
     ["return values", "exceptions"])

prop("C22", "A compound database answers for exactly its members",
     "For a GitDB with any combination of packs, loose objects and alternates: an object is found iff one of the members contains it; info and stream are those of the first such member in the order packs, loose objects, alternates, and BadObject is raised iff there is none. A miss is not remembered, and after update_cache nothing learned before is used. size, sha_iter and update_cache cover every member exactly once, force is passed on, and update_cache returns whether one of them changed. store, ostream and set_ostream are those of the loose object database of the repository itself. update_cache follows the alternates file: members of new lines are added in order, those of vanished lines removed, repeated and unavailable ones ignored.",
     ["inputs", "histories"], "for every id, every assignment of objects to members, sequences of queries and updates, and changes of the alternates file",
     "Tests use one repository with one alternate and objects stored once; overlapping members, misses followed by hits, and reordered or shrinking alternates don't occur.",
     ["gitdb/db/base.py", "gitdb/db/git.py", "gitdb/db/ref.py"],
     [("query and first level cache", "gitdb/db/base.py CompoundDB"), ("members", "gitdb/db/git.py GitDB._set_cache_"), ("alternates", "gitdb/db/ref.py ReferenceDB._update_dbs_from_ref_file")],
     AI + " over sequences of operations; the members' answers are predicates of directory, id and time", NOTE + "Directory layouts and alternates contents are enumerated (seven layouts, nine changes); members' answers are unrestricted.",
     ["return values", "exceptions", "members asked"])

prop("C23", "PackedDB follows the packs on disk",
     "After update_cache found a newer modification time of the directory, or was forced, the entities are exactly the packs pack-*.pack which have an index, each once; entities of unchanged packs are kept. update_cache returns True if it looked for changes, and False if nothing changed. If an update fails, the next one without force still finds the change.",
     ["histories", "fault_sequences"], "for sequences of additions, removals and replacements of packs with or without index and unrelated files, and a failure at each file system access of an update",
     "Tests add and remove packs in one order with a forced update; incomplete packs, failing updates, and unrelated files don't occur.",
     ["gitdb/db/pack.py"], [("update", "gitdb/db/pack.py PackedDB.update_cache"), ("first access", "gitdb/db/pack.py PackedDB._set_cache_")],
     AI + " over sequences of operations on an enumerated directory", NOTE + "Up to three packs; modification times increase with every change (finer granularity of the file system is assumed). Sizes are symbolic, so all orders of the entities are covered.",
     ["entities", "return value"])

prop("C24", "State which is loaded on first access is complete or absent",
     "PackFile, PackIndexFile, PackedDB and GitDB load their state on first access: if this fails because of an operating system error, the error is reported, nothing incomplete is kept, and the next access of any kind succeeds with the complete state once the cause is gone. Files which can't be valid are refused by every access, not just by the first: a pack with a wrong signature with a ParseError, an index of another version than 1 and 2 with an exception; every access to a GitDB without any database below its root fails with InvalidDBRoot, and a later one finds databases which appeared. A reported failure to read the list of alternates is not remembered as a shorter list.",
     ["fault_sequences", "histories"], "for a failure at each call which loads the state (stat, listing, opening, mapping) and every pair of accesses before and after it",
     "Tests always load state from valid files, and don't access an object again after an access failed.",
     ["gitdb/pack.py", "gitdb/db/pack.py", "gitdb/db/git.py", "gitdb/db/ref.py"],
     [("lazy attributes", "gitdb/pack.py PackFile._set_cache_, PackIndexFile._set_cache_"), ("packs", "gitdb/db/pack.py PackedDB._set_cache_"), ("members", "gitdb/db/git.py GitDB._set_cache_")],
     AI + " over sequences of two accesses with one failing call, the second one compared with a first access which didn't fail",
     NOTE + "One failing call per sequence.", ["return values", "exceptions"])

prop("C11", "Deltas in a pack are resolved to exactly the entries they refer to",
     "The streams collected for an entry of a pack are, unread and in this order, those of the entry itself and of the entries its base references lead to: the entry which lies the encoded distance before the referring delta for an offset delta, and the entry the index lists for the base id for a reference delta; the collection ends at the first base object or at a base id which is not in the pack (PackFile.collect_streams: at the first reference delta). info and stream of a pack entry, by id or by number, carry the id asked for and the type of the base object at the end of the chain; the size is the target size the entry's own delta declares, or the entry's own size if it is no delta; the content is the entry's own stream or the application of exactly this chain. They raise BadObject if the id isn't in the index or its chain ends in a base which isn't in the pack, and not otherwise.",
     ["inputs"], "for every id, entry number and offset, and every pack whose chains have up to four (thorough: five) entries, in every mixture of offset and reference deltas",
     "Fixture packs contain only a few short chains of offset deltas; reference deltas, mixtures of both, and unresolvable bases don't occur in them.",
     ["gitdb/pack.py"],
     [("chains within a pack", "gitdb/pack.py PackFile.collect_streams, PackEntity.collect_streams_at_offset"), ("objects", "gitdb/pack.py PackEntity._object")],
     AI + "; type, distance, base id and size of the entry at each offset are uninterpreted, and the result is compared with the chain which the path's own facts determine",
     NOTE + "Chain length is bounded. Entry decoding (C12), index lookup (C14) and delta application (C09, C10) are replaced by their contracts.",
     ["return values", "attributes", "exceptions"])

prop("C16", "A written pack holds exactly the given objects, and its index finds them",
     "On success the bytes passed to the pack's write function are the version 2 header with the number of entries; for each object in order the entry header of its type and size followed by the complete zlib compression of exactly what its stream delivered; and the SHA-1 of all bytes before, which is also returned. If an index was requested, it is written once, to its own function only, and lists each object once with its id, the CRC-32 of the bytes of its entry, and the position of the entry in the pack. With an object count, no more objects than promised are taken from the iterator, and fewer raise ValueError; an object whose stream delivers more or less than its size is refused, one whose stream delivers it is not, and no failure of reading, compressing or writing ends in success.",
     ["inputs", "fault_sequences"], "for every type, size, id and content of the objects, given as list, tuple or iterator, and every combination of object count and index",
     "Tests write one list of small objects which they read from fixture packs, and only look at sizes and ids of the result; entries of several chunks, iterators with a wrong count, and failures are not covered.",
     ["gitdb/pack.py", "gitdb/fun.py"],
     [("pack writer", "gitdb/pack.py PackEntity.write_pack"), ("entry writer", "gitdb/fun.py write_stream_to_pack"), ("running SHA-1", "gitdb/stream.py FlexibleSha1Writer")],
     AI + "; loop-inductive equality of read, compressed, checksummed, hashed and written byte strings",
     NOTE + "Up to three (thorough: five) objects; contents and sizes are unrestricted. Header encoding (C12) and index format (C13) are replaced by their contracts; streams deliver what they are asked for while they can.",
     ["bytes passed to the write functions", "return value", "exceptions"])

prop("C17", "A pack is published complete, before its index, or not at all",
     "Creating a pack writes pack and index to temporary files in the target directory and gives them their names pack-<hex of the pack's SHA-1>.pack and .idx by renaming, each only after everything was written to it and its descriptor was closed, and the pack before the index. If anything fails, the failure is reported and no temporary file and no descriptor stays behind. Nothing else is created or removed in the directory, and the entity returned works on the two published files.",
     ["crash_points", "fault_sequences", "schedules"], "for every point at which the process may die or another one may look, a failure at each single effect, and every sequence of partial writes",
     "Tests create one pack in an empty directory; partial writes, failures and crashes between the steps are not tested.",
     ["gitdb/pack.py"], [("temporary files, renames", "gitdb/pack.py PackEntity.create")],
     TS + "; every effect forks an exceptional path",
     NOTE + "One failing effect per path. Ordering of effects in the program, not of disk blocks.",
     ["effects on the file system", "return value", "exceptions"])

prop("C20", "Verifying an entry accepts exactly what checksum or id say",
     "is_valid_stream with use_crc returns True iff the CRC-32 of exactly the bytes from the entry's offset to the offset of the entry which follows it in the pack, or to the trailing checksum of the pack for the last one, is the one the index lists, in whatever order the index lists the entries; an index of version 1 raises UnsupportedOperation. Without use_crc it returns True iff the SHA-1 of '<type> <size>\\0' and the content of the object (which is read completely, and with all deltas applied) is the id. BadObject is raised iff the id isn't in the index.",
     ["inputs"], "for every pack content, order and size of up to three (thorough: four) entries, and delta chains of up to three entries",
     "Tests verify intact fixture packs only, so that the result is always True, and entries are smaller than one chunk.",
     ["gitdb/pack.py", "gitdb/fun.py", "gitdb/stream.py"],
     [("verification", "gitdb/pack.py PackEntity.is_valid_stream"), ("end of entries", "gitdb/pack.py PackEntity._set_cache_"), ("rehashing", "gitdb/fun.py write_object, gitdb/stream.py Sha1Writer")],
     AI + "; the condition returned is compared with the equality of the reference checksum and the stored one",
     NOTE + "Entries of up to two chunks are unrolled; entries of any size are handled by induction over the chunks.",
     ["return value", "exceptions"])

prop("C18", "Reading from a compressed map yields exactly the content, piece by piece",
     "Whatever the sequence of read calls and their sizes, a DecompressMemMapReader returns exactly the next bytes of the decompressed content: as many as asked for (all that is left for a size below 1), fewer only if the declared size or the compressed stream ends there, and b'' from then on; never a byte beyond the declared size. This holds wherever zlib stops within the windows it is given (output complete with input left over, input used up before the output is complete, end of the stream within or at the end of a window). DecompressMemMapReader.new returns the type and size of the object header, and reading begins with the first byte behind it.",
     ["inputs", "histories"], "for every content, compressed size, map size, sequence of reads and division of the work by zlib",
     "Tests read fixed patterns with a few chunk sizes; how zlib divides input and output over the windows (left-over input, pending output, data behind the stream) depends on the data, and only a few of the combinations ever occur.",
     ["gitdb/stream.py"],
     [("windows, buffer and counters", "gitdb/stream.py DecompressMemMapReader.read"), ("header", "gitdb/stream.py DecompressMemMapReader._parse_header_info, new")],
     AI + "; zlib is modelled by consumed and produced byte counts with every admissible outcome per call; each read is decided from every consistent state, by induction over nested reads and over the sequence of calls",
     NOTE + "Intact streams which lie in the map completely; headers of up to 8192 bytes, decided for several types and sizes.",
     ["return values"])

prop("C19", "seek(0) restarts a compressed stream, any other seek is refused",
     "After seek(0), reading a DecompressMemMapReader begins again with the first byte of the content, for readers with a declared size, created by new (the header is skipped again), or created without a size, whatever was read before; any other offset or whence raises ValueError, and reading continues where it was.",
     ["histories", "inputs"], "for every sequence of reads and seeks, and every state zlib may be in at the time",
     "Tests rewind after reading in a few patterns; state left over in buffer, window or counters shows only in certain positions.",
     ["gitdb/stream.py"],
     [("reset", "gitdb/stream.py DecompressMemMapReader.seek"), ("header on demand", "gitdb/stream.py DecompressMemMapReader._set_cache_")],
     AI + "; the content returned behind a reset from every consistent state is compared with that of a new reader",
     NOTE + "Model of zlib as in C18.",
     ["return values", "exceptions"])

prop("C30", "A pack can be walked entry by entry",
     "Once all of an object was read, compressed_bytes_read of its DecompressMemMapReader is exactly the length of its compressed stream (including the part which only ends the stream, and not counting any data behind it), also if it is asked repeatedly, when it was rewound and read again, for empty objects, and if the map ends with the stream. PackFile.stream_iter yields the entry at the given offset, or at the first one, and then each entry which begins where header and compressed data of the one before end, up to the trailing checksum of the pack; every stream it yields is to be read from its beginning.",
     ["inputs", "histories"], "for every content, compressed size, header length, and division of the work by zlib",
     "Tests walk three fixture packs; compressed streams whose last bytes are not read along with the content, or which end exactly with a window or the map, occur there by chance or not at all.",
     ["gitdb/stream.py", "gitdb/pack.py"],
     [("scrubbing", "gitdb/stream.py DecompressMemMapReader.compressed_bytes_read, read"), ("iteration", "gitdb/pack.py PackFile._iter_objects")],
     AI + "; consumed bytes are compared with the length of the compressed stream by linear facts over all outcomes of zlib",
     NOTE + "Model of zlib as in C18. The walk is unrolled over up to three entries.",
     ["return values", "entries yielded"])

prop("C07", "LockedFD replaces a file under a lock, completely or not at all",
     "LockedFD.open creates '<path>.lock' exclusively before it touches anything else, and raises OSError without any effect if that fails; for writing it yields a descriptor of the lock file, for reading a read-only one of the file itself, and the lock is released if the file can't be opened. commit after writing gives the lock file the name of the file, with mode 0644; rollback, destruction, and commit after reading remove the lock file and leave the file alone; if closing or renaming fails, the failure is reported and the lock is released. An instance can be opened only once and not be finished before that (AssertionError); once it is finished, or if open failed, commit, rollback and destruction have no effect, in particular not on a lock which somebody else holds by then.",
     ["histories", "schedules", "fault_sequences"], "for every sequence of open, commit, rollback and destruction, with another process taking the lock in between, and a failure of any one system call",
     "The test performs one sequence of operations on one file; competing processes, failures, and repeated or premature calls are hardly covered.",
     ["gitdb/util.py"],
     [("exclusive lock file", "gitdb/util.py LockedFD.open"), ("publication and cleanup", "gitdb/util.py LockedFD._end_writing"), ("destruction", "gitdb/util.py LockedFD.__del__")],
     TS + "; the analysed path carries a small abstract file system, histories up to four (thorough six) calls are compared with the protocol",
     NOTE + "Paths are concrete representatives; one failing system call per path; a failing removal of the lock file itself isn't covered.",
     ["effects on the file system", "exceptions"])

prop("C08", "Queries and in-memory operations change nothing on disk",
     "Querying a database of any kind, a pack, an index or a GitDB (whether successful or failing), MemoryDB.store and MemoryDB.stream_copy into another database which only records, and write_pack through given functions, never create, change, rename or remove a file or directory, and never open anything for writing.",
     ["inputs", "histories"], "for every path of every query method, including those on which it fails",
     "Tests look at results; that a query leaves the disk alone isn't asserted anywhere, and failing queries are hardly made.",
     ["gitdb/db", "gitdb/pack.py", "gitdb/stream.py", "gitdb/util.py", "gitdb/fun.py"],
     [("queries of databases", "gitdb/db/*.py has_object, info, stream, size, sha_iter, partial_to_complete_sha..., update_cache"), ("packs", "gitdb/pack.py PackFile, PackIndexFile, PackEntity"), ("in memory", "gitdb/db/mem.py MemoryDB")],
     "effect analysis on all paths of the abstract interpreter (every call of an external function is classified; modes and flags are evaluated)",
     NOTE + "Which files exist and what they contain is unconstrained; the analysed queries are those of the other properties plus the remaining public ones.",
     ["effects on the file system"])

prop("C25", "Maps and descriptors of loose objects are released exactly once",
     "file_contents_ro and file_contents_ro_filepath yield the whole content of the file (mapped read-only, or read if it may not or can't be mapped), and the latter closes the descriptor it opened exactly once on every path and doesn't use it afterwards. LooseObjectDB.info and stream never use a map they closed, and info has closed its map when it returns or raises; the reader of a loose object's stream owns its map, which close() or its destruction closes exactly once, and a reader which isn't the owner, or whose data can't be closed, closes nothing.",
     ["inputs", "fault_sequences", "histories"], "for every path, including failures of any one call, and every sequence of close and destruction",
     "Tests don't observe descriptors and maps; a leaked or twice closed one shows only after many objects or in another thread.",
     ["gitdb/util.py", "gitdb/db/loose.py", "gitdb/stream.py"],
     [("descriptor", "gitdb/util.py file_contents_ro_filepath"), ("map", "gitdb/db/loose.py LooseObjectDB._map_loose_object, info, stream"), ("ownership", "gitdb/stream.py DecompressMemMapReader.close, __del__")],
     TS + "; open and closed descriptors and maps are tracked along every path",
     NOTE + "One failing call per path.",
     ["effects on descriptors and maps", "return values"])

prop("C26", "The records describing objects hold exactly what they were made of",
     "Each attribute of a record (OInfo, OStream, ODeltaStream, OPackInfo, ODeltaPackInfo, OPackStream, ODeltaPackStream, IStream, InvalidOInfo, InvalidOStream) is the value it was created with, OInfo and OStream give the same values as a tuple, hexsha is the hexadecimal form of the current binsha, type names and numbers correspond in both directions, and setting a field of an IStream changes this field only. read(n) of a record passes the size to its stream once and returns the result (without a size everything is asked for), and the size of an ODeltaStream is the one its stream has when it is asked for. to_hex_sha and to_bin_sha convert between the two forms of an id and leave one as it is which has the wanted form already; a BadObject can be printed, whatever form of id it was made of.",
     ["inputs", "histories"], "for every value of every field, every kind of object, and every order of changes",
     "Tests create a few of the records with one set of values and look at some of the attributes.",
     ["gitdb/base.py", "gitdb/util.py", "gitdb/exc.py", "gitdb/fun.py"],
     [("records", "gitdb/base.py OInfo … InvalidOStream"), ("type numbers", "gitdb/fun.py type_id_to_type_map, type_to_type_id_map"), ("forms of ids", "gitdb/util.py to_hex_sha, to_bin_sha"), ("printing errors", "gitdb/exc.py BadObject.__str__")],
     AI + "; symbolic field values are followed through constructors, properties and tuple slots",
     NOTE, ["return values"])

prop("C27", "The memory database gives back what it was given, and copies it unchanged",
     "After MemoryDB.store succeeded, the object is found under the returned id with its type and size, stream() delivers its whole content from the first byte on every call, and what is kept is the complete compressed form of header and content (or exactly the bytes of an object-format stream); size() and sha_iter() count and list each id once. An unknown id raises BadObject, and a failing store leaves the database as it was. stream_copy passes each of the given objects which the target lacks to it, in order, once, with id, type, size and the whole compressed form, returns their number, raises BadObject if one is missing here, and reports a failing store.",
     ["inputs", "histories", "fault_sequences"], "for every object, every sequence of stores and reads, every list of ids, and a failure of any single read",
     "Tests store a few objects once each and read them once from the start.",
     ["gitdb/db/mem.py", "gitdb/stream.py", "gitdb/db/loose.py"],
     [("store", "gitdb/db/mem.py MemoryDB.store"), ("queries", "gitdb/db/mem.py MemoryDB.has_object, info, stream, size, sha_iter"), ("copying", "gitdb/db/mem.py MemoryDB.stream_copy"), ("compression", "gitdb/stream.py ZippedStoreShaWriter")],
     AI + "; dictionaries and streams are followed symbolically over sequences of two stores",
     NOTE + "zlib is modelled by its contract; the reader's read is the subject of C17/C18.",
     ["return values", "calls of the target's store"])

prop("C28", "Objects of any size are processed piece by piece, in bounded memory",
     "Storing, copying, packing and verifying an object by its id ask its source for pieces of limited size only, and hash, compress and write such pieces only, never the object as a whole. Reading n bytes from a compressed map hands zlib at most n bytes more than a fixed amount of it at once (or what is left from before) and asks it for no more than that. Getting the stream of a loose or undeltified packed object decompresses at most its header, getting the info of a deltified one only the beginning of the delta, and neither copies the packed data.",
     ["inputs"], "for every size of object, every chunking of the source, and every state of a reader",
     "Tests use small objects, and none of them measures memory; an implementation which reads everything at once passes all of them.",
     ["gitdb/fun.py", "gitdb/stream.py", "gitdb/pack.py", "gitdb/db/loose.py"],
     [("copy loops", "gitdb/fun.py stream_copy, write_object; gitdb/pack.py write_stream_to_pack"), ("window", "gitdb/stream.py DecompressMemMapReader.read, compressed_bytes_read"), ("laziness", "gitdb/stream.py DecompressMemMapReader.new; gitdb/pack.py pack_object_at, PackEntity._object")],
     AI + "; upper bounds of the lengths of all requests and pieces, by path facts and loop induction",
     NOTE + "A limit is 64 MiB here (the code uses about 4 MiB). Applying deltas, the memory database, and an object's header parsed by info() of the loose database are outside: they work on whole objects by design.",
     ["requests to sources", "calls of zlib, hashlib and write functions"])

prop("C29", "Paths, listings and headers of loose objects agree",
     "Storing an object, checking for it, its info and stream, object_path with db_path, and readable_db_object_path (for an id given as str or bytes, at first and when asked again) all use the same file: the one below the root in the folder named by the first two hexadecimal digits of the id, named by the other 38. sha_iter lists the id of each file which lies at such a path once, and ignores temporary files, packs and the other files of an object directory, and size counts what sha_iter lists. The header written for a type and a size is '<type> <size>' followed by a NUL, reading it from the compressed object yields this type (as bytes) and size (as int) whatever follows it, and is_loose_object accepts what begins like zlib data and refuses packs, indices and uncompressed headers.",
     ["inputs"], "for every id, type and size, and every content of an object directory as git lays it out",
     "Tests store an object and query it through the same instance, which hides a layout other tools can't read, and they iterate one fixture directory.",
     ["gitdb/db/loose.py", "gitdb/db/base.py", "gitdb/fun.py"],
     [("paths", "gitdb/db/loose.py LooseObjectDB.object_path, readable_db_object_path, _map_loose_object, store; gitdb/db/base.py FileDBBase.db_path"), ("listing", "gitdb/db/loose.py LooseObjectDB.sha_iter, size"), ("header", "gitdb/fun.py loose_object_header, loose_object_header_info, is_loose_object")],
     AI + "; paths symbolically for any id and for representatives, listings for representative directories",
     NOTE + "Directories, sizes and first bytes of files are representatives. Folders with a two-character name which git wouldn't create aren't covered.",
     ["paths of file system calls", "return values"])

prop("C31", "Packs and pack databases list every object once, with its own data",
     "PackEntity.info_iter and stream_iter yield one record for each number of the index, in the order of the index, with the id the index has for this number and the type, size and content of the object at the end of the entry's chain of deltas; they raise BadObject at an entry whose base isn't in the pack, and nothing else. PackedDB.sha_iter yields the id of every entry of every pack once, size is the number of these, and entities() the packs, whatever was looked up before or is looked up in between. PackedDB.store raises UnsupportedOperation and does nothing else.",
     ["inputs", "histories"], "for every kind of entry and chain, and every order of earlier lookups",
     "Tests iterate fixture packs and compare the iterator with itself or with its length only.",
     ["gitdb/pack.py", "gitdb/db/pack.py"],
     [("listing a pack", "gitdb/pack.py PackEntity._iter_objects, info_iter, stream_iter"), ("listing packs", "gitdb/db/pack.py PackedDB.sha_iter, size, entities, _sort_entities, store")],
     AI + "; the records are compared with the chain which the facts of the path determine",
     NOTE + "Up to two entries per pack (thorough: three) with chains of up to two entries, up to three packs (thorough: four).",
     ["return values", "exceptions"])

prop("C32", "Merged delta chunk lists stand for the deltas applied one after the other",
     "delta_list_slice(list, ofs, size, out) appends chunks which stand for exactly the size bytes from ofs on of what list stands for, and leaves list as it was; connect_with_next_base replaces each copy by what its base stands for at that place and leaves data alone, and compress only joins data, both without changing what the list stands for. connect_deltas over a chain of valid deltas, applied to the base, gives the same bytes as applying the deltas one after the other. DeltaChunkList.apply writes what its chunks stand for, in order; lbound, rbound and size delimit it, and connect_with_next_base returns False only if no copy is left.",
     ["inputs"], "for every list of chunks, section, and chain of deltas",
     "No test reaches the merge: it is only used with the optional C extension's replacement switched in.",
     ["gitdb/fun.py"],
     [("section of a list", "gitdb/fun.py delta_list_slice, _closest_index, _move_delta_lbound"), ("merge", "gitdb/fun.py TopdownDeltaChunkList.connect_with_next_base, DeltaChunkList.compress"), ("chains", "gitdb/fun.py connect_deltas, DeltaChunkList.apply")],
     AI + "; lists of chunks of symbolic positions and sizes, every byte position located in the original chunks over linear facts, violations confirmed by values which satisfy all facts of the path",
     NOTE + "Lists of up to three chunks in every mix of copies and data (thorough: four), compress up to five chunks (thorough: six); connect_deltas is evaluated abstractly for 16 fixed chains (thorough: 40) of up to four deltas over a symbolic base.",
     ["return values", "state of the lists"])

prop("C33", "Packs report what their files say",
     "PackFile.size() and version() are the object count and version of its header, data() is the whole file, checksum() its last 20 bytes, path() the path given, in whatever order they are asked; info and stream of offset 0 are those of the entry at offset 12, of any other offset those of the entry there. A PackEntity made of the path of a pack or of its index works on <name>.pack and <name>.idx, wherever else dots or these extensions occur in the path; path() and version() of an index are those given and of the file. close() leaves neither of them mapped, and may be called again.",
     ["inputs"], "for every pack file, every order of the questions, and every path",
     "Tests ask the three fixture packs in one order; their directories have plain names.",
     ["gitdb/pack.py"], [("pack", "gitdb/pack.py PackFile._set_cache_, size, version, data, checksum, path, info, stream, close"), ("pair", "gitdb/pack.py PackEntity.__init__, close; PackIndexFile.path, version, close")],
    AI + "; symbolic header and contents, each order of the questions evaluated from a new object",
     NOTE + "Orders of up to three questions (thorough: all orders of all); the paths of a pair are a list of names with dots, extensions and directories.",
     ["return values", "files left mapped"])

prop("C34", "Writers and helper streams deliver exactly what was written",
     "After close, the target of a FDCompressedSha1Writer or ZippedStoreShaWriter has exactly the compressed form of all bytes written to it, that of a FlexibleSha1Writer or FDStream the bytes themselves, or an error was raised; sha() is the SHA-1 of what was written so far and write of a writer returns the number of bytes given. close closes the descriptor exactly once, also if the rest could not be written, and failing or partial system calls never end in silent success. FDStream reads what is asked for, or as much as the file has, and tells how much was transferred; a NullStream reads as empty bytes and takes everything; allocate_memory gives a block of the size asked for, which behaves like the bytes it holds.",
     ["inputs", "fault_sequences"], "for every sequence of writes, every partial write, and every failing system call",
     "Tests write one short sequence to a file which takes everything at once.",
     ["gitdb/stream.py", "gitdb/util.py"], [("writers", "gitdb/stream.py Sha1Writer, FlexibleSha1Writer, ZippedStoreShaWriter, FDCompressedSha1Writer"), ("small streams", "gitdb/stream.py FDStream, NullStream; gitdb/util.py allocate_memory, _RandomAccessBytesIO")],
    AI + "; every order of the calls with symbolic data, every system call may fail or write in part; what reached the target is compared with what was written",
     NOTE + "Sequences of up to three calls before the last one (thorough: four); partial writes are followed for up to four rounds, C01 covers any number of them. zlib and hashlib are assumed to be right.",
     ["return values", "files", "open descriptors"])

prop("N01", "Objects in packs larger than the mapping window are read correctly",
     "A pack or index larger than smmap's window is read as if it was mapped as a whole: every entry is decoded and every object delivered completely, wherever it lies relative to the borders of the mapped regions.",
     ["inputs"], "for every size of pack, window size, and position of an entry",
     "Fixture packs are far smaller than a window.",
     ["gitdb/pack.py", "gitdb/util.py"], [("cursor", "gitdb/pack.py PackFile._set_cache_, pack_object_at")], "", "", ["return values"],
     na="how much of the file the buffer of a region shows depends on smmap's window size and memory at run time; nothing in the source of gitdb bounds it, and the known code relies on entries lying within one region")

prop("N02", "Databases may be queried from several threads at once",
     "Queries of one PackedDB, PackEntity or GitDB instance made by several threads at once return what they would return one after the other.",
     ["schedules"], "for every interleaving", "Tests use one thread.",
     ["gitdb/db/pack.py", "gitdb/db/base.py", "gitdb/pack.py"], [("shared cursor, hit counters, sorting", "gitdb/db/pack.py PackedDB._pack_info")], "", "", ["return values"],
     na="there is no lock and no documented guarantee in the code to decide it against: cursors, hit counts and caches are shared by design, and the interleavings of CPython's byte code are beyond a static argument here")

prop("N03", "Resolving deltas and alternates ends for every input",
     "Following base references of deltas, and alternates of alternates, ends also for files which refer to themselves in a circle.",
     ["inputs"], "for every pack and alternates file", "No fixture contains a circle.",
     ["gitdb/pack.py", "gitdb/db/ref.py", "gitdb/db/git.py"], [("base references", "gitdb/pack.py PackEntity.collect_streams_at_offset"), ("alternates", "gitdb/db/ref.py ReferenceDB._update_dbs_from_ref_file")], "", "", ["termination"],
     na="it depends on the graph formed by the contents of files, for which no ranking function is visible in the source; git itself refuses to create such files")

