#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl: run it to rewrite the file."""
import json, os
I = "include/maidsafe/common/"
S = "src/maidsafe/common/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "where": files[-1]}]
    a["observe_at"] = [observe]
    a["hook_needed"] = hook or None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Hex and Base64 are exact inverses and decode any text safely",
 "For every byte sequence and every supported container type, encoding to hex or Base64 yields the canonical text (lower-case hex of twice the length; padded RFC 4648 Base64), and decoding that text returns exactly the original bytes. Hex decoding accepts exactly the even-length texts made of its own lower-case digits and rejects every other text with the library's error, and Base64 decoding of any text whatsoever ends in a value or the library's error. No input, encoded or not, makes either direction read or write outside its buffers.",
 ["inputs"], "all byte sequences (any length and content, including NUL and >= 0x80) and all texts offered for decoding",
 "Tests encode a handful of vectors and random strings; decoding of arbitrary non-alphabet bytes (table look-ups indexed by the character) is never driven.",
 [I+"encode.h", S+"encode.cc"], [("hex/base64 lookup tables", "src/maidsafe/common/encode.cc"), ("templated Encode/Decode", "include/maidsafe/common/encode.h")],
 "return values and exceptions of the encode/decode functions; sanitizer reports")

prop("C02", "Bounded strings never hold a value whose size is out of bounds",
 "However a bounded string is produced (from a string, from bytes, from hex or Base64 text, by copy, move, assignment, swap or deserialisation), it is either uninitialised or holds exactly the given bytes with a size inside its bounds; an attempt with an out-of-bounds value fails with the library's error and leaves an assignment target unchanged. Reading an uninitialised value fails with the library's error instead of returning data. Equality and ordering are those of the underlying byte sequences, form a strict total order, and place uninitialised before every initialised value.",
 ["inputs", "histories"], "all bound instantiations used, all byte sequences and all sequences of construct/copy/move/swap/assign operations",
 "Tests use a few hand-picked sizes per instantiation; they do not run sequences of operations against a model or feed out-of-bounds values through every construction path.",
 [I+"bounded_string.h", I+"identity.h", S+"identity.cc", I+"types.h"], [("size check on every construction path", "include/maidsafe/common/bounded_string.h")],
 "public accessors (string(), IsInitialised(), comparisons) after every operation")

prop("C03", "Identities have a fixed size and XOR distance orders them strictly",
 "Every initialised identity is exactly 64 bytes long, building one from raw bytes, hex, Base64 or a string of binary digits of any other size fails with the library's error, and the three text forms convert back to the same identity. For a fixed target the closer-to-target relation agrees with comparing XOR distances as 512-bit big-endian integers and is therefore a strict total order on distinct identities, and the number of common leading bits is the position of the first differing bit (512 when equal). Uninitialised identities are refused with the library's error.",
 ["inputs"], "all triples of identities, including equal ones and ones differing in a single bit at any position; all text lengths",
 "Tests check a small fixed matrix; the order axioms and bit positions have to hold for every triple and every one of 512 positions.",
 [I+"identity.h", S+"identity.cc", S+"identity_common_bits_matrix.h"], [("CloserToTarget / CommonLeadingBits / MakeIdentity", "src/maidsafe/common/identity.cc"), ("byte-pair table", "src/maidsafe/common/identity_common_bits_matrix.h")],
 "results compared with an independent big-integer oracle")

prop("C05", "Serialising a value and parsing it back yields an equal value",
 "For every value of every type the library serialises (integers of each width, floating point, strings, containers, optionals, enums, tagged values, bounded strings, identities, RSA keys, paths, network addresses of both families (whose documented 5 or 17 bytes leave out an IPv6 scope), and messages built from several of these), parsing the serialised bytes gives an equal value and consumes exactly the bytes that were written. The encoding is deterministic and the same for every way of producing it.",
 ["inputs"], "all values of the serialisable types, alone and in any combination and order",
 "Tests serialise one or two values per type; they sample neither boundary values nor compositions.",
 [I+"serialisation/serialisation.h", I+"serialisation/binary_archive.h", I+"serialisation/types/boost_filesystem.h", I+"serialisation/types/asio_and_boost_asio.h"],
 [("binary archive", "include/maidsafe/common/serialisation/binary_archive.h"), ("serialise/parse functions", "include/maidsafe/common/serialisation/serialisation.h")],
 "public serialise and parse functions")

prop("C06", "Parsing untrusted bytes ends in a value or an exception, never corruption",
 "Parsing arbitrary, truncated, extended or bit-flipped bytes as any serialisable type (containers, strings, addresses, keys, data chunks, version histories) either produces a value that satisfies that type's own invariants or throws a standard exception. It never reads or writes outside a buffer, never dereferences an invalid iterator, never terminates the process, and never allocates memory out of proportion to the input for truncated input that is shorter than a fixed-size header.",
 ["inputs"], "all byte sequences, biased to mutations of valid encodings",
 "Tests only parse well-formed bytes and a couple of truncated ones.",
 [I+"serialisation/binary_archive.h", I+"serialisation/serialisation.h", S+"data_types/structured_data_versions.cc", S+"data_types/structured_data_versions_cereal.h", S+"data_types/data.cc", S+"rsa.cc"],
 [("bounded reads from the input stream", "include/maidsafe/common/serialisation/binary_archive.h"), ("rebuilding the version tree", "src/maidsafe/common/data_types/structured_data_versions.cc")],
 "exceptions and sanitizer reports while parsing; invariants of any value that is returned")

prop("C07", "Version histories behave as the documented tree under every operation",
 "For every sequence of insertions, branch deletions and clears, a version history answers every query (tips, branch contents, which version an insertion evicts, which error is raised) as the documented tree of versions does: one root, orphans kept until their parent arrives, no cycles, one parent per version, and never more versions or branches than the configured limits. A failing operation leaves the history unchanged, and no operation leaves an internally inconsistent tree.",
 ["histories", "configurations"], "all operation sequences over a small universe of versions, for all small limits",
 "Tests replay one hand-written tree; eviction, re-rooting and un-orphaning interact in ways that only appear for particular operation orders and limits.",
 [I+"data_types/structured_data_versions.h", S+"data_types/structured_data_versions.cc"],
 [("Put / eviction / re-rooting / un-orphaning", "src/maidsafe/common/data_types/structured_data_versions.cc")],
 "public queries after every operation, compared with a reference tree", state="version map, root, tips, orphans")

prop("C08", "A version history survives serialising, assignment and merging intact",
 "Serialising any reachable version history and parsing it back gives a history with the same limits, tips and branches that answers every later operation identically; the same holds after moving it by assignment or swap. Merging a serialised history into an existing one puts every version held, parents first, into the incoming history under the incoming limits (their union where the limits allow it), or fails with the library's error and changes nothing.",
 ["histories"], "all reachable histories including ones with orphans and several branches, followed by further operations",
 "Tests serialise one tree and compare tips once; they never continue operating on the restored, swapped or merged history.",
 [S+"data_types/structured_data_versions.cc", S+"data_types/structured_data_versions_cereal.h"],
 [("Serialise / parse / ApplySerialised / swap", "src/maidsafe/common/data_types/structured_data_versions.cc")],
 "public queries on the restored object compared with the original and the reference tree")

prop("C09", "The data buffer returns what was stored and honours its size limits",
 "In every sequence of stores, reads, deletions and limit changes, reading a key that is stored and neither deleted nor popped returns exactly the last value stored under it, and reading a key never stored or deleted fails with the library's error (a popped value may still be read from memory). Values handed to the pop callback are the oldest on disk and carry exactly the bytes stored; each is handed over once and only when space is needed, and the files kept on disk never exceed the disk limit in force. Oversized values, invalid limits and unusable directories are refused with the library's error, and the buffer removes the files it made when it is told to own its directory.",
 ["histories", "configurations"], "all operation sequences over a small key set, with memory and disk limits that force movement to disk, blocking and popping",
 "Tests run a few fixed scenarios at fixed sizes; they never compare whole histories to a model or measure the directory on disk.",
 [I+"data_buffer.h", S+"data_buffer.cc"], [("memory and disk stores, background copier", "src/maidsafe/common/data_buffer.cc")],
 "values returned, pop callbacks, files in the buffer directory", state="memory index, disk index, usage counters")

prop("C10", "The data buffer is safe under concurrent use",
 "When several threads store, read, delete and change limits at once, no value is lost, torn or resurrected: a read returns bytes stored under that key and not superseded or deleted before the read began, a value removed by the pop callback is delivered exactly once, and a blocked store continues as soon as deletions or popping make room. There is no data race on the buffer's state, and destroying the buffer ends its worker without a deadlock.",
 ["schedules"], "all interleavings of concurrent clients with the background worker, including shutdown",
 "Existing tests are single-client or check only completion; interleavings with the background worker are left to chance and nothing watches for races.",
 [I+"data_buffer.h", S+"data_buffer.cc"], [("two locks, two condition variables and one worker", "src/maidsafe/common/data_buffer.cc")],
 "client-side call/return history; race detector", state="memory and disk stores")

prop("C11", "The LRU cache evicts exactly the least recently used entries",
 "For every sequence of additions, look-ups and deletions the cache holds at most its capacity and contains exactly the entries of the reference LRU policy: adding to a full cache removes the least recently used key, a successful look-up makes its key the most recent and returns the value first added for it, a repeated addition changes nothing, deletion removes just that key. With a time-to-live, no addition leaves behind an expired least-recently-used entry, and an entry that has not outlived it is never dropped for age. The value-less filter form follows the same rules.",
 ["histories", "configurations"], "all operation sequences over a small key set, for all capacities and times to live",
 "Tests perform one fill-and-overflow run for each constructor; orders of look-up, deletion and re-addition are not explored.",
 [I+"containers/lru_cache.h"], [("usage list and map kept in step", "include/maidsafe/common/containers/lru_cache.h")],
 "Check, Get, size after every operation against a reference model", state="usage list and storage map")

prop("C12", "An active object runs every submitted job once, in order, on one thread",
 "Every job submitted to an active object before its destruction begins is executed exactly once, on the object's own thread and never concurrently with another of its jobs; jobs from one submitter (including jobs submitted from inside a job) run in submission order, as do jobs of different submitters whose submissions are ordered in time. Destruction waits until all of these have run, never deadlocks, and nothing runs afterwards; this holds without data races for any number of submitting threads.",
 ["schedules"], "all interleavings of several submitters, the worker and destruction",
 "The only tests submit from one thread; lost wake-ups and shutdown races need particular interleavings.",
 [I+"active.h", S+"active.cc"], [("queue, condition variable and running flag", "src/maidsafe/common/active.cc")],
 "events recorded by the submitted jobs", state="job queue and running flag")

prop("C13", "The concurrent queue is FIFO, loses nothing, and wakes waiting consumers",
 "Under any number of producers and consumers each pushed element is popped exactly once, elements of one producer reach any one consumer in the order pushed, and the history of operations (including size and emptiness queries) is explainable as one FIFO queue. A waiting pop returns once an element is available for it and a non-waiting pop fails only on an empty queue, leaving its argument untouched; move-only elements are supported and there are no data races.",
 ["schedules", "histories"], "all interleavings of concurrent producers and consumers with blocking and non-blocking pops",
 "No existing test covers the queue at all.",
 [I+"safe_queue.h"], [("SafeQueue", "include/maidsafe/common/safe_queue.h")],
 "client-side history of uniquely valued operations", state="underlying queue")

prop("C14", "The I/O service runs everything accepted and stops cleanly from any thread",
 "An I/O service started with n > 0 threads executes every handler posted before it is stopped exactly once on one of exactly n threads, with up to n handlers in progress at once; starting with zero threads fails with the library's error. Stopping waits for accepted handlers, may be called repeatedly and from several outside threads at once, leaves a thread count of zero after which nothing posted runs, and is refused with the library's error when called from one of the service's own threads.",
 ["schedules", "configurations"], "all interleavings of posting, stopping and destruction for all thread counts, for both supported service types",
 "Tests call Stop once per scenario; concurrent stops and stops racing with handlers are not exercised.",
 [I+"asio_service.h"], [("IoService", "include/maidsafe/common/asio_service.h")],
 "events recorded by posted handlers; exceptions", state="work guard and thread list")

prop("C15", "TCP messages arrive whole, once and in order over any byte segmentation",
 "Over one connection every accepted message (1 byte up to the maximum size) is delivered to the peer's receive callback exactly once, byte-for-byte and in send order, whichever threads send and however the stream is split into segments. On the wire each message is its 4-byte big-endian length followed by its bytes, and sending an empty or oversized message is refused with the library's error without disturbing others.",
 ["schedules", "inputs"], "all message sizes, sender interleavings, both directions at once and all segmentations of the stream",
 "Tests exchange equal-sized messages over the library's own peer only; segmentation and the wire format are never controlled.",
 [I+"tcp/connection.h", S+"tcp/connection.cc", I+"tcp/listener.h", S+"tcp/listener.cc"],
 [("length-prefixed framing and send queue on a strand", "src/maidsafe/common/tcp/connection.cc")],
 "receive callbacks and raw bytes seen by a plain socket peer", state="send queue, receive buffer")

prop("C16", "TCP connections close once and survive hostile peers",
 "A started connection whose peer disconnects, sends an oversized length, truncates a message or resets, or which is closed locally, reports closure exactly once, delivers no message after reporting it, and never delivers a message that was not completely received. A listener accepts on the desired port or one of the few following ones, hands each accepted connection over once, and after it is stopped accepts no more; connecting to a dead port fails with the library's error. Concurrent sending, closing and stopping on a multi-threaded service causes no data race, leak or crash.",
 ["schedules", "fault_sequences", "inputs"], "all peer behaviours and all interleavings of send, close, stop and I/O completion",
 "Tests use well-behaved peers on orderly shutdown only.",
 [S+"tcp/connection.cc", S+"tcp/listener.cc"], [("DoClose, ReadSize, ReadData; StartListening, HandleAccept, StopListening", "src/maidsafe/common/tcp/")],
 "callbacks seen by the client; race detector and address sanitizer", state="socket, once flags, queue")

prop("C17", "Symmetric encryption round-trips and rejects any alteration",
 "For every plaintext and every key-and-IV, decrypting the ciphertext with the same key-and-IV returns the plaintext, and the ciphertext equals what an independent AES-256-GCM implementation with the same parameters produces. Decrypting a ciphertext that was altered, truncated or extended in any way, or with a different key or IV, fails with the library's error and returns no data; uninitialised inputs are refused.",
 ["inputs"], "all plaintext sizes and contents, all keys and IVs, all single-bit and structural alterations",
 "Tests use a fixed vector and one random case, and no tampering.",
 [I+"crypto.h", S+"crypto.cc"], [("SymmEncrypt / SymmDecrypt", "src/maidsafe/common/crypto.cc")],
 "returned data and exceptions, against an independent implementation")

prop("C18", "Compression restores the input at every level and rejects bad input",
 "For every input and every level from 0 to 9, uncompressing the compressed form returns exactly the input; a level above 9 is refused with the library's error. Uncompressing data that is not a complete valid compressed stream fails with the library's error rather than returning wrong data or crashing.",
 ["inputs"], "all inputs, levels and corruptions",
 "Tests compress one text and one random string.",
 [I+"crypto.h", S+"crypto.cc"], [("Compress / Uncompress", "src/maidsafe/common/crypto.cc")],
 "returned data and exceptions; an independent inflater")

prop("C19", "Hash functions equal the standard digests for strings, bytes and bounded strings",
 "For every input, each supported hash (SHA-1, SHA-256, SHA-384, SHA-512) of a string, a byte vector or a bounded string equals the standard digest of those bytes, whatever their size and value. The type of the result follows the hash and the input, and hashing an uninitialised bounded string is refused with the library's error.",
 ["inputs"], "all contents and sizes, in particular sizes around block and read-buffer boundaries",
 "Tests compare a few fixed vectors.",
 [I+"crypto.h", S+"crypto.cc"], [("Hash / HashFile", "include/maidsafe/common/crypto.h")],
 "returned digests against independent implementations")

prop("C20", "Any threshold subset of shares restores a secret, fewer do not",
 "For every secret and every 2 <= k <= n with n >= 3, splitting yields n shares: as a secret, every selection of k or more of them in any order restores exactly the original; as dispersed information, every selection of exactly k does. Other thresholds and counts are refused with the library's error, and fewer than k shares never restore (nor does one of them contain) a secret. Missing, truncated, uninitialised, repeated or foreign shares lead to another result or the library's error, never to a crash.",
 ["inputs", "configurations"], "all secrets, all thresholds and share counts in range, all subsets and orders of shares",
 "Tests use one threshold and one subset.",
 [I+"crypto.h", S+"crypto.cc"], [("SecretShareData / SecretRecoverData / InfoDisperse / InfoRetrieve", "src/maidsafe/common/crypto.cc")],
 "restored data")

prop("C21", "RSA keys verify their own signatures and decrypt their own messages only",
 "For every generated key pair, data of any size encrypted with the public key is restored by the private key and by no other, and a signature over data or a file verifies with the matching public key and exactly that data. Any alteration of data, signature, signature length or key makes verification return false (or fail with the library's error) without touching memory outside the inputs. Keys survive encoding and decoding unchanged, and unusable keys or inputs are refused with the library's error.",
 ["inputs"], "all data sizes, all alterations of data, signature and ciphertext, keys of other sizes",
 "Tests check a few sizes and no altered or short signatures.",
 [I+"rsa.h", S+"rsa.cc"], [("Encrypt / Decrypt / Sign / CheckSignature / Encode / Decode", "src/maidsafe/common/rsa.cc")],
 "returned values and exceptions; sanitizer reports")

prop("C22", "Password derivation and obfuscation are deterministic and reversible",
 "The secure password derived from a PIN and password, and the obfuscation pad derived from keyword, PIN and password, equal an independent PBKDF2-HMAC-SHA512 over the documented salt, label and iteration count; equal credentials, however they were entered, give equal results and a change of any one changes them. Obfuscating data of any size twice with the same credentials restores it. Missing or unfinished credentials, uninitialised data and uninitialised salts are refused with the library's error.",
 ["inputs"], "all keywords, PINs, passwords and data sizes",
 "Tests check a single set of credentials.",
 [I+"authentication/user_credential_utils.h", S+"authentication/user_credential_utils.cc", I+"crypto.h", S+"crypto.cc"],
 [("CreateSecurePassword / Obfuscate / CreateSecureTmidPassword", "src/maidsafe/common/authentication/user_credential_utils.cc"), ("CreateSecurePassword", "src/maidsafe/common/crypto.cc")],
 "returned data against an independent implementation")

prop("C23", "Secure input fields behave as plain text editing and validate on finalising",
 "For every sequence of insertions, removals, clears and finalisations, a secure input field holds the text the same edits produce on an ordinary list of characters; it is valid exactly when the number of characters satisfies the field's rule, none is missing and each matches the given pattern. Removals out of range and finalising an incomplete field are refused with the library's error and change nothing. After finalising, the text, its hash and its value are available and further edits follow the same rules; before, reading is refused.",
 ["histories", "inputs"], "all edit sequences with positions inside and outside the text, for each kind of field",
 "Tests type a word forward and once out of order.",
 [I+"authentication/detail/secure_string.h", S+"authentication/detail/secure_string.cc"],
 [("SecureInputString", "include/maidsafe/common/authentication/detail/secure_string.h")],
 "string(), IsValid, IsFinalised, comparisons after each edit", state="encrypted text and pending characters")

prop("C24", "Secure memory is wiped when released and page locks balance",
 "Memory obtained through the secure allocators is never handed out overlapping, is aligned, and has every byte zeroed when it is released, whatever the order of allocations and releases; moving or swapping containers neither loses nor copies contents. Page locking is balanced: a page stays locked while any live allocation uses it and is unlocked once after the last one goes, for every interleaving of threads.",
 ["histories", "schedules"], "all allocation and release sequences of all sizes, from several threads",
 "No existing test looks at released memory or at lock counts.",
 [I+"authentication/detail/safe_allocators.h"], [("zeroing and locking allocators", "include/maidsafe/common/authentication/detail/safe_allocators.h")],
 "memory contents at release and lock/unlock calls recorded by stand-ins", state="locked page counts")

prop("C25", "SipHash equals the reference function however its input is split",
 "For every key and every message, the hash produced equals the reference SipHash-2-4 value of the concatenated input, regardless of how the bytes are divided into update calls (including empty and unaligned pieces). Copying a partially fed hash continues independently of the original, and seeding with equal keys is deterministic.",
 ["inputs", "histories"], "all keys, all messages, all ways of splitting them",
 "The tests feed the reference vectors in a few fixed ways.",
 [I+"hash/algorithms/siphash.h", S+"hash/algorithms/siphash.cc", I+"hash/algorithms/hash_algorithm_base.h"],
 [("SipHash buffering and finalisation", "src/maidsafe/common/hash/algorithms/siphash.cc")],
 "digest against an independently written reference")

prop("C26", "Equal values hash equally through the universal hash, distinct ones differ",
 "For every supported type (numbers, strings, arrays, pairs, tuples, sequence and ordered associative containers, ranges, views, user types with a serialise or append function, const or not), hashing feeds the algorithm the value's elements in order, followed by their count for containers and ranges. Equal values therefore give equal hashes with equal seeds, values of one type that differ in content, length or grouping feed different bytes, and hashing several values at once equals hashing them one after another or as a tuple. The seeded wrapper is deterministic per instance and its copies, and two instances do not share a seed.",
 ["inputs"], "all values and nestings of supported types, all algorithms and seeds",
 "Tests check a few literal values per type.",
 [I+"hash.h", I+"hash/"], [("HashAppend overloads and wrappers", "include/maidsafe/common/hash/")],
 "the byte stream seen by a recording algorithm, and digests")

prop("C27", "Error values map to integers one-to-one and keep category and message",
 "Every library error of every family converts to an integer in that family's own block of 100000 negative integers and back to the same error, no two errors share an integer, and every integer outside the ten blocks is refused with the library's parsing error without undefined behaviour. Every error has a non-empty message of its own, belongs to the category of its family, and compares equal to its own condition or to the one generic condition the category maps it to, and to no other. Errors keep category and value when thrown and caught as their family's type, and when serialised and parsed.",
 ["inputs"], "all error values, all 2^32 integers and all pairings of error codes and conditions",
 "Tests exercise a handful of errors and integers.",
 [I+"error.h", S+"error.cc", S+"error_categories.h", S+"error_categories.cc"], [("ErrorToInt / IntToError, categories", "src/maidsafe/common/error.cc")],
 "returned codes, integers, messages and conditions")

prop("C28", "SQLite transactions are atomic, isolated and survive crashes",
 "Changes made through the database wrapper inside a transaction become visible to other connections only, and all together, when it is committed; a transaction that is destroyed without commit, or whose process dies at any point, leaves no trace. Values bound to a statement (text and blobs of any bytes and size, including empty) are read back unchanged and statements can be reset and reused. Opening a database that cannot be opened, and preparing, binding or stepping a statement that fails, raises the library's error, and neither success nor failure leaks memory or handles.",
 ["histories", "crash_points", "schedules"], "all sequences of statements with commits, rollbacks and process deaths, with several connections",
 "Tests insert rows and read them back on the success path only.",
 [I+"sqlite3_wrapper.h", S+"sqlite3_wrapper.cc"], [("Database / Statement / Transaction", "src/maidsafe/common/sqlite3_wrapper.cc")],
 "table contents read through an independent connection", state="open transaction flag")

prop("C29", "Shared-memory messages are read back exactly, or refused",
 "A list of strings that fits into a shared memory segment (64 KiB) and is published under a name is read back identically by any reader that asks for that many strings, as often as it asks, from the same or another process, until it is removed. Asking for more strings than were published, or for a name that does not exist or was removed, fails with an exception and never reads outside the segment; publishing under a name again replaces the earlier list, and a list that does not fit is refused with an exception.",
 ["inputs", "histories"], "all lists of byte strings (including empty ones and embedded NULs), all requested counts, all create/read/remove sequences",
 "The tests need a child process that does not build here and use one list.",
 [I+"ipc.h", S+"ipc.cc"], [("CreateSharedMemory / ReadSharedMemory / RemoveSharedMemory", "src/maidsafe/common/ipc.cc")],
 "strings returned and exceptions")

prop("C30", "Data chunks keep their name, type and content bound together",
 "An immutable chunk's name is always the SHA-512 digest of its content, and a mutable chunk keeps the name and content it was given, through every copy, move, assignment, serialisation and parse; a failed parse changes nothing. Names with type ids compare and order as pairs and round-trip through serialisation, the serialised form of a chunk is its name followed by its content, and a chunk read through the base class has the kind it was written with. Unset names or contents are refused with the library's error when building, reading or writing, and damaged immutable chunks with its parsing error.",
 ["inputs"], "all contents and sizes, all names and type ids, all copies, moves and assignments",
 "Tests build a few random chunks.",
 [I+"data_types/data.h", S+"data_types/data.cc", I+"data_types/immutable_data.h", S+"data_types/immutable_data.cc", I+"data_types/mutable_data.h", S+"data_types/mutable_data.cc"],
 [("Data, NameAndTypeId, ImmutableData, MutableData", "src/maidsafe/common/data_types/")],
 "accessors, comparisons, serialised bytes")

prop("C31", "File helpers report success only when the whole content made it",
 "Writing a file reports success exactly when the file then holds precisely the given bytes, and reading returns precisely the bytes of the file or an error, for every size and for every failure the system can report (missing directory, no permission, directory in place of a file, full device). Neither helper throws, and reading a file just written returns what was written.",
 ["inputs", "fault_sequences"], "all contents and sizes and all failing paths",
 "Tests write one file and read one missing file; a full or failing device is never simulated.",
 [I+"utils.h", S+"utils.cc"], [("ReadFile / WriteFile", "src/maidsafe/common/utils.cc")],
 "return values against independently read file contents")

prop("C32", "Random strings, version numbers and size texts meet their specification",
 "Random strings and byte vectors have exactly the requested size, or a size inside the requested range (every bound reachable), and alphanumeric ones contain only alphanumeric characters; concurrent generation is race-free and equal seeds give equal sequences. Version texts of the documented shape map to the documented integer and every other text maps to the invalid version; byte counts map to the nearest decimal or binary unit for every 64-bit value, timestamps convert back to the moment they were taken, and the XOR of strings is bytewise.",
 ["inputs", "schedules"], "all sizes and ranges, all version texts, all 64-bit counts, concurrent callers",
 "Tests try a few values each and do not check the range bounds or malformed versions.",
 [I+"utils.h", S+"utils.cc"], [("Random*, VersionToInt, BytesTo*SiUnits, GetTimeStamp", "src/maidsafe/common/utils.cc")],
 "return values against independent oracles")

prop("C33", "Clock, address and tagged-value conversions lose nothing",
 "Converting a time to seconds and back keeps the whole seconds, the clock never disagrees with system time beyond the time the call took, and conversions between the two network libraries' addresses and endpoints, and between strings and byte vectors, preserve every bit in both directions. A tagged value behaves exactly like the value it wraps under construction, copy, move, comparison and conversion; an ostreamable enumeration prints each enumerator's own name, and its validity test accepts exactly the enumerators.",
 ["inputs"], "all representable times, all addresses, ports, scope ids, byte sequences, wrapped values and enumeration values",
 "Tests try one value of each.",
 [I+"clock.h", S+"clock.cc", I+"convert.h", I+"tagged_value.h", I+"type_macros.h"], [("conversions", "include/maidsafe/common/convert.h"), ("Clock", "src/maidsafe/common/clock.cc")],
 "returned values compared with the source values")

prop("C34", "Every enabled log message is written exactly once and whole, disabled never",
 "With logging initialised from any mix of command line and configuration file, every message whose project (taken from its source path) and level pass the filter appears exactly once, complete and unmixed with others, with its level, thread and time, in each configured sink (console, terminal with the chosen colours, project file, combined file), in the order logged by its thread; messages that do not pass do not appear and their text is not formatted. This holds for any number of logging threads; synchronous messages are written when the call returns, asynchronous ones at the latest when the program exits. Options not meant for logging are handed back unchanged, and initialising again has no effect.",
 ["schedules", "configurations"], "all filter configurations, message contents and interleavings of logging threads",
 "There is no automated oracle for log output; existing tests only exercise the macros.",
 [I+"log.h", S+"log.cc"], [("Logging, LogMessage, background writer", "src/maidsafe/common/log.cc")],
 "captured console output and log files", state="filter map, sink streams")

prop("C35", "Menus and the command line follow the user's choices exactly",
 "For every menu tree and every sequence of input lines, the menu runs exactly the operations the lines select, in that order, shows and enters the sub-menus as chosen, ignores invalid choices without running anything, and ends with success on the quit choice and with an error code when the input ends or an operation fails. The command-line reader returns the value of the requested type that the line starts with or fails with the library's error (also at end of input), with terminal echo as requested while it reads and restored afterwards; a password prompt with confirmation returns only when two consecutive entries (the first word of each line) are equal. A line is split at runs of spaces into its words with the option prefix on the first.",
 ["inputs", "histories"], "all menu trees and all input scripts, including invalid choices and end of input",
 "Tests feed a few fixed lines to the reader; the menu's loop has no test.",
 [I+"menu.h", S+"menu.cc", I+"menu_item.h", S+"menu_item.cc", I+"cli.h", S+"cli.cc"], [("Menu::Run", "src/maidsafe/common/menu.cc"), ("CLI::Get, TokeniseLine, GetPassword", "src/maidsafe/common/cli.cc")],
 "sequence of operations run, output text, return value", state="current item")

prop("C36", "A scope guard runs its final action exactly once unless released",
 "A scope guard runs the action it was last given exactly once when its scope is left, normally or by exception, and runs nothing if it was released or given no action; if setting it up fails, the clean-up action is still run once. The value-reverting action restores the value the variable had when the action was made, and owning-pointer creation forwards its arguments exactly, value-initialises arrays, and leaks nothing when a constructor throws.",
 ["histories", "fault_sequences"], "all sequences of set and release, all ways of leaving the scope, and failing copies and allocations",
 "Tests leave the scope in the ordinary ways and never make the set-up fail.",
 [I+"on_scope_exit.h", I+"make_unique.h"], [("on_scope_exit", "include/maidsafe/common/on_scope_exit.h"), ("make_unique", "include/maidsafe/common/make_unique.h")],
 "counted actions, tracked values and allocations")

prop("C37", "The profiler's report accounts for every profiled scope exactly",
 "For any number of threads entering profiled scopes, the final report lists every location exactly once in each of its four sections, with a call count equal to the number of times the scope was left and a total duration that is the sum of the individual ones; the average is the total divided by the count and the sections are sorted as titled. Nothing is lost at program exit and there is no data race.",
 ["schedules"], "all interleavings of profiled scopes and all sets of locations",
 "No existing test covers the profiler.",
 [I+"profiler.h", S+"profiler.cc"], [("Profiler::AddEntry and report", "src/maidsafe/common/profiler.cc")],
 "the printed report compared with what the workload recorded", state="entries map")

prop("C38", "Command lines for child processes keep arguments intact; liveness is right",
 "An argument list is joined into one line with the program name first and quoted (unless the caller quoted it already) and the other arguments verbatim, one blank apart, so that a reader which divides at unquoted blanks recovers the same arguments whenever they are free of blanks, quotes and backslashes or were quoted by the caller; empty arguments leave no trace. A process is reported as running exactly while it exists (the library's error is raised where the system refuses to tell), its own process id is reported truthfully, and another program's path is formed with the directory and extension of this one.",
 ["inputs", "histories"], "all argument lists; processes that run, have exited or were never started",
 "The tests start one fixed child process, which does not build here.",
 [I+"process.h", S+"process.cc"], [("ConstructCommandLine, IsRunning, GetProcessId", "src/maidsafe/common/process.cc")],
 "returned strings and booleans compared with the operating system's view")

prop("C39", "The executable's location is established once and reported consistently",
 "Before the executable's path has been set, asking for it or its directory fails with the library's error; after it is set, by whichever thread is first and however many try, every caller gets the same absolute path that names the running program, and its directory is that path's parent. Version, platform and architecture texts are those the program was built with.",
 ["schedules", "configurations"], "all orders of setting and asking from several threads; all values the program may be started under",
 "A test process can set the path only once, so the order of calls and concurrent first calls are never varied.",
 [I+"config.h", S+"config.cc"], [("SetThisExecutablePath / ThisExecutablePath", "src/maidsafe/common/config.cc")],
 "returned paths in fresh processes", state="stored executable path")

prop("C40", "Test-support helpers run everything asked and clean up after themselves",
 "Running a functor in parallel runs it once in the calling thread and then n times, all at once and each in its own thread; all have ended before the call returns, and a failure of any run is reported to the caller. A temporary test directory exists and is unique while its handle lives and is removed with its contents afterwards. Random ports offered lie in 1025 to 65535 and do not repeat within the last ten thousand, random addresses are well formed, and the seed and bootstrap file options given to a test program have exactly the effect asked for: each test it runs starts from the seed after that of the test before, a failure is shown with the seed it started from, and the program returns the result of its tests or tells that it ran none.",
 ["schedules", "histories"], "all counts, failing functors and nested uses",
 "These helpers are what tests are built from; nothing tests them.",
 [I+"test.h", S+"test.cc"], [("RunInParallel, CreateTestPath, GetRandomPort", "src/maidsafe/common/test.cc")],
 "counts and the file system before and after")

prop("C41", "Visualiser log lines carry each event once with exact, parseable fields",
 "Once a session is initialised, each action logged under a session id is posted to the server once, as one JSON object with exactly the time, process, session, persona, action and values given whatever characters they contain (identities in hex), and written to the visualiser's file once, as one line (identities abbreviated), in the order of its thread; unless logging is asynchronous it is in the file when the statement that logs it ends. The file is complete whatever the server does, and the server misses nothing while it keeps its connections. Before initialisation and for values that are not enumerators the library's error is raised and nothing is logged; without a session id nothing is sent or written; a second initialisation is refused; nothing is written when no log folder is wanted.",
 ["inputs", "schedules"], "all field contents, actions and interleavings of logging threads",
 "Existing tests only check that the macros run.",
 [I+"visualiser_log.h", S+"visualiser_log.cc"], [("VisualiserLogMessage", "src/maidsafe/common/visualiser_log.cc")],
 "requests received by a server, lines in the written log file")

prop("C42", "Signing tool: only the right key or password works, and no file is harmed",
 "What the signing tool says it did, it did: a key saved is the one last loaded, created or recovered, created keys are a pair, and a save without a key says so and writes nothing. A file that is not the kind of key asked for is never taken as one. A signature is written beside a file, and found valid with a public key, only if it was made from exactly that file's contents with the matching private key; signing and validating leave the file as it is. Encrypting makes the file the AES256 cipher text of what it held under the password typed alike twice; only that password brings it back, and a wrong password, a damaged, empty or missing file leaves every file as it was. A key shared among a group comes back from any of the required number of people with their own passwords, never from fewer or with a wrong password; no share shows the key, and once a group has signed in the private key can no longer be saved. Answers that make no sense are refused and asked again; no input whatever ends the tool abnormally, and it ends when told to or when its input ends.",
 ["inputs", "histories"], "all sequences of commands, files, passwords, group sizes and ends of input",
 "No test runs the tools.",
 [S+"tools/signing_tool.cc"], [("Process, Get, CreateKeyGroup, GroupSignIn", "src/maidsafe/common/tools/signing_tool.cc")],
 "what the program prints, the files it leaves, its exit status", state="the loaded keys")

prop("C43", "Bootstrap file tool keeps exactly the endpoints entered, loaded and saved",
 "The list the bootstrap file tool shows and saves is what its commands made it: an endpoint is prepended or appended where asked, removing takes away one equal endpoint or says that there is none, loading replaces the list by what the file holds, in order, and saving writes exactly the list in the documented format, so that it loads again. An endpoint is accepted only as a full IPv4 address other than 0.0.0.0, a colon and a port from 1025 to 65535; anything else is refused and asked again. A file that does not parse, holds no endpoint or an impossible address or port is refused and the list stays; any path whose folder exists can be given, relative or absolute. Changes not yet saved are never dropped by loading or leaving without being confirmed. The tool ends with 0 when told to, and it ends when its input does, at whatever question.",
 ["inputs", "histories"], "all sequences of commands, endpoints, paths, file contents and ends of input",
 "No test runs the tools.",
 [S+"tools/bootstrap_file_tool.cc", S+"tools/bootstrap_file_tool_cereal.h"], [("Choice, HandlePolicyLoadBootstrapFile, InputPolicyGetEndpoint", "src/maidsafe/common/tools/bootstrap_file_tool.cc")],
 "what the program prints, the files it leaves, its exit status", state="the loaded endpoints")

if __name__ == "__main__":
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
