"""What each check builds and runs.  See DESIGN.md."""
BASE = ["utils", "log", "active", "error", "error_categories", "config", "crypto", "identity", "encode", "data_types/data"]
ERR = ["error", "error_categories"]
CHECKS = {}


def add(pid, **kw):
    CHECKS[pid] = kw


add("C01", harness="c01_encode.cc", units=["encode"] + ERR, modes=["asan"],
    rule="random, exhaustive 1- and 2-byte and edited valid texts; a case is non-trivial when its bytes/text were not seen before",
    require={"hex_text_accepted": 100, "hex_text_rejected": 100, "b64_text_accepted": 100, "b64_text_rejected": 100})
add("C02", harness="c02_bounded.cc", extra=["c02_part1.cc", "c02_part2.cc"], units=BASE, modes=["asan", "asan_nd"],
    rule="random sequences of construction, copy, move, swap, parse and element writes on four slots of each instantiation, "
         "against a byte-string model; non-trivial when the operation trace was not seen before",
    require={"accepted": 1000, "refused": 1000})
add("C03", harness="c03_identity.cc", units=BASE, modes=["asan"],
    rule="triples of identities differing first at every one of 512 bit positions, every pair of byte values, random close sets, all text lengths; "
         "non-trivial when the identities were not seen before",
    require={"refused": 100})
add("C12", harness="c12_active.cc", units=["active"], modes=["tsan", "asan"], delay=True, scale={"asan": 100},
    rule="lifetimes of active objects under 1-6 submitters with injected delays at every lock, unlock, wait and notification; "
         "non-trivial when more than one submitter's jobs were interleaved in an order not seen before",
    require={"jobs": 2000, "submitter_switches": 100, "lifetimes": 100})
add("C13", harness="c13_queue.cc", units=[], modes=["tsan", "asan"], delay=True,
    rule="multi-threaded histories checked for a linearisation by search; non-trivial when operations overlapped and the history was not seen before",
    require={"histories_linearised": 300, "overlapping_pairs": 300})
add("C14", harness="c14_io_service.cc", units=BASE, modes=["tsan", "asan"], delay=True,
    rule="services of 1-6 threads under several posting and stopping threads with injected delays; non-trivial by the combination of thread counts, posters, stoppers and concurrency reached",
    require={"handlers": 2000, "full_houses": 50, "refused": 50})
add("C33", harness="c33_convert.cc", units=["clock"], modes=["asan"],
    rule="times around every power of two and the limits, random addresses of both families with scopes, byte strings, enumerator values; non-trivial when the inputs were not seen before",
    require={"endpoints": 1000})
add("C36", harness="c36_scope.cc", units=[], modes=["asan"], flags=["-DVH_EXIT_NORMALLY"], leaks=True,
    rule="random nests of guards with replaced, released and failing actions; non-trivial when the trace of actions was not seen before",
    require={"actions_run": 1000, "failed_setups": 1})
add("C37", harness="c37_profiler.cc", units=["active", "profiler"] + BASE, modes=["asan", "tsan"], delay=True, delay_modes=["tsan"],
    flags=["-DUSE_PROFILING"], link=[], rule="random entries from 1-5 threads over up to 60 locations in fresh processes; non-trivial when more than one location was reported and the entries were not seen before",
    require={"reports": 50, "scope_reports": 20})
add("C39", harness="c39_config.cc", units=["config"] + ERR, modes=["asan", "tsan"],
    flags=["-UAPPLICATION_VERSION_MAJOR", "-UAPPLICATION_VERSION_MINOR", "-UAPPLICATION_VERSION_PATCH", "-DAPPLICATION_VERSION_MAJOR=7",
           "-DAPPLICATION_VERSION_MINOR=11", "-DAPPLICATION_VERSION_PATCH=13", "-UTARGET_PLATFORM", "-DTARGET_PLATFORM=Plan9",
           "-UTARGET_ARCHITECTURE", "-DTARGET_ARCHITECTURE=pdp11"],
    rule="fresh processes started from differently named, linked and deeply nested copies of one program, setting the path from up to six threads; non-trivial by location",
    require={"processes": 80, "long_paths": 20})
add("C35", harness="c35_menu.cc", units=["menu", "menu_item", "cli"] + BASE, modes=["asan"], link=["-lutil"],
    rule="random menu trees driven by random input lines, random lines for the reader, password entries and token lines, a pseudo-terminal watched for echo; non-trivial when the input was not seen before",
    require={"operations": 1000, "invalid_choices": 300, "echo_observed": 50, "password_accepted": 50, "end_end": 20})
add("C25", harness="c25_siphash.cc", units=["hash/algorithms/siphash"], modes=["asan", "asan_nd"],
    rule="keys, messages and divisions into pieces (every division of short messages into three), copies and intermediate values; non-trivial when the message and its division were not seen before",
    require={"copies": 500, "intermediate": 1000})
add("C26", harness="c26_hash.cc", units=["hash/algorithms/siphash"] + BASE, modes=["asan"],
    rule="pairs of random values of 60 types fed to a recording algorithm and to SipHash, judged against an independent description of the bytes; non-trivial when type and values were not seen before",
    require={"values": 10000, "equal_pairs": 3000, "different_pairs": 3000})
add("C27", harness="c27_errors.cc", units=ERR + ["log", "utils", "active", "crypto", "config"], modes=["asan", "tsan"], scale={"tsan": 5},
    rule="every error of every family and every pairing with conditions, every integer of the ten families and random others; non-trivial by error and by integer",
    require={"errors": 80, "equal_conditions": 80, "integers": 1000000, "unlisted": 1000})
add("C30", harness="c30_data.cc", units=["data_types/immutable_data", "data_types/mutable_data"] + BASE, modes=["asan"],
    rule="random sequences of building, copying, moving, serialising and damaging chunks of both kinds on three slots against a model with an independent SHA-512; non-trivial when the operation trace was not seen before",
    require={"parsed": 500, "damaged": 300, "altered": 100})
SDV = ["data_types/structured_data_versions", "data_types/immutable_data"] + BASE
add("C07", harness="c07_sdv.cc", units=SDV, modes=["asan", "asan_nd"],
    rule="random and enumerated sequences of puts, deletions and clears over small universes and limits, all queries compared with a reference tree after every operation; non-trivial by the tree reached and by the rule exercised",
    require={"versions_in_large_histories": 1000, "puts_accepted": 1000, "puts_refused": 1000, "deletes": 500, "short_sequences": 1000, "rule_cycle-long": 1, "rule_cycle-long-several": 1, "rule_cycle-of-two": 1,
             "rule_root-from-orphans": 1, "rule_root-from-children": 1, "rule_root-joins-orphan-branch": 1, "rule_orphan-becomes-root": 1, "rule_root-displaced": 1,
             "rule_branch-limit": 1, "rule_branch-limit-drops-root": 1, "rule_branch-limit-root": 1, "rule_at-branch-limit-adopts-root": 1, "rule_evict-new-root": 1})
add("C08", harness="c08_sdv.cc", units=SDV, modes=["asan", "asan_nd"],
    rule="random operations on two histories interleaved with writing and reading back, swapping, assignment and merging, compared with reference trees after every operation; non-trivial by the pair of trees reached",
    require={"versions_in_large_histories": 1000, "restored": 500, "restored_with_orphans": 200, "swaps": 500, "applied": 300, "apply_refused": 100, "merged_both_ways": 100})
add("C11", harness="c11_lru.cc", units=BASE, modes=["asan", "asan_nd"],
    rule="random and enumerated sequences of additions, look-ups, deletions and movements of a simulated clock for all constructors, three key types and both forms, against a reference list; non-trivial when the trace was not seen before",
    require={"evictions": 1000, "expired": 1000, "lookups_found": 1000, "short_sequences": 10000, "zero_capacity": 100})
add("C05", harness="c05_serial.cc", extra=["c05_flyweight.cc"], units=["rsa", "data_types/immutable_data", "data_types/structured_data_versions"] + BASE, modes=["asan"],
    rule="random and boundary values of 36 types and of messages of several values, written and read in every way the interface offers, against an independent description of the bytes; non-trivial when type and bytes were not seen before",
    require={"values": 20000, "messages": 4000, "keys": 8, "shared_flyweights": 500})
add("C06", harness="c06_hostile.cc", units=["rsa", "data_types/immutable_data", "data_types/mutable_data", "data_types/structured_data_versions"] + BASE, modes=["asan"],
    rule="damaged, truncated, extended and random bytes for 28 types and for keys, chunks, flyweights and version histories (also built from hostile branch lists), against a reference decoder and the types' invariants; non-trivial when type and bytes were not seen before",
    require={"accepted": 5000, "rejected": 20000, "histories_accepted": 1000, "histories_rejected": 1000, "forests": 1000, "keys_accepted": 50, "keys_rejected": 300,
             "chunks_accepted": 300, "chunks_rejected": 1000, "deep_histories": 1})
add("C09", harness="c09_buffer.cc", units=["data_buffer"] + BASE, modes=["asan", "asan_nd"], delay=True, beat_limit=25,
    rule="random sequences of stores, reads, deletions, predicate deletions and limit changes against a model of values, files and pops, settled and unsettled, blocking and popping, with cancellations and directory faults; non-trivial when the trace was not seen before",
    require={"stores": 1500, "popped": 1000, "oversized": 50, "cancelled": 50, "replaced": 20, "blocked_histories": 200, "limits_refused": 100, "faults": 50})
add("C10", harness="c10_buffer.cc", units=["data_buffer"] + BASE, modes=["tsan", "asan"], delay=True, beat_limit=25,
    rule="2-6 client threads, a caretaker changing limits and deleting by predicate, and the worker, with injected delays: every read, deletion and pop of the recorded history explained by the stores and removals it can have seen; non-trivial when the interleaving of calls was not seen before",
    require={"stores": 5000, "reads": 2000, "misses": 500, "popped": 500, "predicate_deletes": 500, "emptied": 100, "shutdowns": 300, "histories": 400})
add("C31", harness="c31_files.cc", units=BASE, modes=["asan"],
    rule="contents of all sizes around buffer boundaries, read and written with plain system calls as the oracle; missing, forbidden, full, cut-short and descriptor-less files; path options and chunk file names; non-trivial when the content or case was not seen before",
    require={"files": 3000, "writes_refused": 800, "reads_refused": 800, "partial_writes": 80, "no_descriptor": 80, "changing": 40, "options": 500, "chunk_names": 1000})
add("C32", harness="c32_utils.cc", units=BASE, modes=["asan", "tsan"], delay=True, delay_modes=["tsan"],
    rule="random sizes and ranges, seeds, version texts, byte counts around every threshold, stamps, XOR and concurrent generators against independent oracles; non-trivial when the input was not seen before",
    require={"random_strings": 500000, "versions_good": 2000, "versions_bad": 3000, "byte_counts": 10000, "time_stamps": 1000, "xors": 1000, "concurrent_strings": 5000, "seeds": 100})
add("C17", harness="c17_aes.cc", units=BASE, modes=["asan"], link=["-lcrypto"],
    rule="plaintexts of all sizes around block and buffer boundaries with random and extreme keys compared with OpenSSL's AES-256-GCM; damaged ciphertexts, keys and IVs; non-trivial when the ciphertext was not seen before",
    require={"round_trips": 2000, "refused": 40000, "uninitialised": 10})
add("C18", harness="c18_gzip.cc", units=BASE, modes=["asan"], link=["-lz"],
    rule="incompressible, constant, textual and self-repeating contents at every level against zlib, streams made by zlib with all levels, strategies, windows, headers and flushes, and seven kinds of damage; non-trivial when the stream was not seen before",
    require={"round_trips": 1500, "foreign": 1000, "refused": 2000})
add("C19", harness="c19_digest.cc", units=BASE, modes=["asan"], link=["-lcrypto"],
    rule="every size up to several blocks and random larger ones, as strings, byte vectors and bounded strings, against OpenSSL; non-trivial when the content was not seen before",
    require={"digests": 12000})
add("C20", harness="c20_share.cc", units=BASE, modes=["asan"],
    rule="random thresholds, share counts, secrets and selections of shares, restored or not, and damaged selections; non-trivial when the parameters and secret were not seen before",
    require={"restored": 6000, "too_few": 2000, "hostile": 2000, "arguments": 400})
add("C21", harness="c21_rsa.cc", units=["rsa"] + BASE, modes=["asan"], link=["-lcrypto"], beat_limit=60,
    rule="data of sizes around the key size and above, three key pairs and keys of other sizes, signatures and wrapped keys cross-checked with OpenSSL in both directions, five kinds of alteration each; non-trivial when the data was not seen before",
    require={"signatures": 120, "encryptions": 120, "alterations_refused": 1000, "other_sizes": 80, "unusable_refused": 1000, "generated": 5})
SECURE = ["authentication/user_credential_utils", "authentication/detail/secure_string"]
add("C22", harness="c22_password.cc", units=SECURE + BASE, modes=["asan"], link=["-lcrypto"],
    rule="random credentials with extreme PINs, built by constructor or key by key, against OpenSSL's PBKDF2 over the documented salt and count; every subset of credentials missing; non-trivial when the credentials were not seen before",
    require={"derived": 100, "obfuscated": 200, "direct": 200, "incomplete": 50, "concurrent": 10})
add("C23", harness="c23_secure_input.cc", units=SECURE + BASE, modes=["asan"],
    rule="random edits of fields of four kinds with gaps, refusals, repeated finalisation and re-editing against a plain text model; non-trivial when the history was not seen before",
    require={"insertions": 1500, "removals": 500, "removals_refused": 150, "finalised": 1000, "finalise_refused": 150, "valid": 500, "values": 100, "secure_strings": 300})
add("C24", harness="c24_safe_memory.cc", units=SECURE + BASE, modes=["asan", "tsan"], delay=True, delay_modes=["tsan"],
    rule="allocations and releases in random order, inspected byte by byte as they are released; containers against a model; the page manager against a count per page; threads with every live page looked up in the recorded locks; non-trivial when the history was not seen before",
    require={"releases": 5000, "containers": 300, "destroyed": 500, "page_steps": 50000, "thread_steps": 10000})
add("C15", harness="c15_tcp.cc", units=["tcp/connection", "tcp/listener"] + BASE, modes=["tsan", "asan"], delay=True, beat_limit=45,
    rule="random message lists sent by several threads at both ends, and by and to a plain socket in random segments, with transfers shortened and delays injected; non-trivial when the delivery order or contents were not seen before",
    require={"delivered": 2000, "refused": 300, "connections": 200, "raw_in": 800, "raw_out": 800, "segments": 2000})
add("C16", harness="c16_tcp.cc", units=["tcp/connection", "tcp/listener"] + BASE, modes=["tsan", "asan"], delay=True, beat_limit=45,
    rule="peers ending connections in six ways at random points, local closes during traffic, busy ports, failing accepts, repeated stops and storms of all of these; non-trivial when the outcome was not seen before",
    require={"peer_ends": 500, "oversized": 60, "reset": 60, "cut in body": 60, "local_closes": 300, "interrupted": 50, "accepted": 300, "all_busy": 3, "stopped": 200, "storms": 100})
add("C28", harness="c28_sqlite.cc", units=["sqlite3_wrapper"] + BASE, modes=["asan"], link=["-lsqlite3", "-ldl"], leaks=True, flags=["-DVH_EXIT_NORMALLY"], beat_limit=60,
    rule="random values through reused statements, every kind of refusal, sequences of committed and abandoned transactions watched by an independent connection, processes killed at a random file system call or step, transfers between accounts by several writers, locks held by others for a while or for good while a transaction begins or commits; non-trivial when the history was not seen before",
    require={"written": 600, "read": 200, "empty_blobs": 50, "refused": 2000, "commits": 150, "abandoned": 300, "looks": 500, "died": 100, "died_in_commit": 10, "transfers": 60, "sums": 50, "waited_to_begin": 4, "refused_to_begin": 4, "waited_to_commit": 4, "refused_to_commit": 4, "already_ended": 8})
add("C29", harness="c29_ipc.cc", units=["ipc"] + BASE, modes=["asan", "asan_nd"],
    rule="random sequences of publishing, reading (in this and other processes) and removing lists of arbitrary byte strings under several names against a model, lists around the size of a segment, several readers; non-trivial when names and operations were not seen before",
    require={"published": 500, "read_here": 400, "read_elsewhere": 140, "too_many": 250, "missing": 500, "oversized": 30, "large_lists": 20, "shared": 1000})
add("C38", harness="c38_process.cc", units=["process"] + BASE, modes=["asan"],
    rule="random argument lists with quoted and unquoted program names divided again by an independent reader, processes in several states, copies of a program under different names; non-trivial when the line or process was not seen before",
    require={"quoted_programs": 4000, "programs": 8000, "processes": 100, "concurrent_questions": 10000, "beside": 50})
add("C40", harness="c40_helpers.cc", units=["test"] + BASE, flags=["-DMAIDSAFE_DISABLED_TEST_RETURN_CODE=77"], modes=["asan", "tsan"], link=["-lgtest"], scale={"tsan": 30},
    rule="parallel runs of every count with runs that wait for each other or fail, directories made and released by several threads in a private temporary directory, all ports of a process, options and bootstrap files in fresh processes; non-trivial when the outcome was not seen before",
    require={"runs": 2500, "together": 80, "failing": 150, "directories": 2000, "removed": 400, "nowhere": 200, "ports": 100000, "seeds": 50, "bootstrap_files": 30, "programs": 80, "program_tests": 100})
add("C34", harness="c34_logging.cc", units=BASE, modes=["asan", "tsan"], logging=True, delay=True, delay_modes=["tsan", "asan"], link=["-lutil"], scale={"tsan": 50},
    rule="whole programs with random filters, options from the command line and a configuration file, sinks, colours and 1-6 logging threads in a child each; console, terminal and files read back line by line; non-trivial when the messages and configuration were not seen before",
    require={"passed": 15000, "dropped": 8000, "files": 1500, "terminals": 150, "asynchronous": 250, "synchronous": 60, "killed_after": 60, "help": 10, "nested": 300, "test_messages": 4000, "unused_options": 800})
add("C41", harness="c41_vlog.cc", units=["visualiser_log"] + BASE, modes=["asan", "tsan"], logging=True, delay=True, delay_modes=["tsan", "asan"], scale={"tsan": 50}, beat_limit=60,
    rule="whole programs logging random actions in ten forms from 1-5 threads in a child each, before, during and after initialisation, to a server that answers, fails, answers in pieces, hangs up or isn't there; requests and file read back; non-trivial when the values were not seen before",
    require={"posted": 5000, "entries": 8000, "stopped": 400, "invalid": 300, "silent": 300, "racing": 100, "good_server": 100, "closing_server": 20, "no_server": 20, "no_folder": 20, "written_at_once": 60})
add("C43", harness="c43_bootstrap_tool.cc", extra=["tool_bootstrap.cc"], units=BASE, modes=["asan"], logging=True, beat_limit=90,
    rule="whole sessions with the tool in a child each: random commands, refused answers, files that are damaged, missing or hold impossible endpoints, ends of input at any question; list shown, files written and exit status against a model; non-trivial when the commands and list lengths were not seen before",
    require={"added": 400, "removed": 40, "saved": 80, "loaded": 60, "load_refused": 60, "declined": 10, "views": 500, "asked_again": 200, "input_ended": 40, "left": 80, "stayed": 10, "unwritable": 10})
add("C42", harness="c42_signing_tool.cc", extra=["tool_signing.cc"], units=["rsa"] + BASE, modes=["asan"], beat_limit=150,
    rule="whole sessions with the tool in a child each: keys created, saved, loaded, shared among a group and brought together again, files signed, changed, validated, encrypted and decrypted with right and wrong passwords, files that are no keys, ends of input; what it says, the files and the exit status against a model and the library; non-trivial when the commands were not seen before",
    require={"signed": 40, "not_signed": 10, "valid": 12, "invalid": 20, "encrypted": 50, "decrypted": 25, "wrong_passwords": 30, "keys_loaded": 40, "keys_saved": 20, "not_keys": 20, "nothing_to_save": 5, "groups": 5, "signed_in": 3, "input_ended": 10, "left": 20})
