"""What check.py runs for each property. Also the source of MANIFEST.json (tools/mkmanifest.py)."""
CFG = {}
def prop(ids, **kw):
    for i in ids.split():
        d = dict(kw); d.setdefault("flavours", ["asan"]); d.setdefault("flavours_thorough", ["asan", "clang-asan", "opt", "valgrind"] if d["flavours"] == ["asan"] else d["flavours"]); d.setdefault("prefixes", [i + "."]); CFG[i] = d
def get(i): return CFG[i]

SAN = "g++ ASan+UBSan, automatic variables and fresh heap memory filled with a pattern, allocation balance after every case"
prop("Q01", src=["queue.cpp"],
     technique="runtime monitoring: model-based oracle over queue histories under ASan/UBSan",
     level_note="All histories of 6 (thorough 9) operations and random histories up to 60, each operation compared with a std::deque model; histories beyond are sampled.",
     rule="a case is one operation history; Q01.exhaustive enumerates all of a fixed length, Q01.long draws them; distinct: different history (Q01.long: one that ends with two or more elements)",
     require={"pops_from_empty": 100})
prop("Q02", src=["queue.cpp"],
     technique="runtime monitoring: model-based oracle over pools of queues under ASan/UBSan with allocation balance",
     level_note="Random histories over pools plus every operation on every pair of sizes 0..3 in all storage states; leaks and use-after-free are seen by ASan and the allocation balance of each case.",
     rule="a case is one history over a pool of queues (Q02.pool) or one two-queue operation on queues of given sizes (Q02.pairs); distinct: different history / contents",
     require={"copies": 100, "moves": 100, "swaps": 100, "self_copy": 10, "self_move": 10})
prop("Q03", src=["queue.cpp"],
     technique="runtime monitoring: six comparison operators against a lexicographic model under ASan/UBSan",
     level_note="Random triples over a small alphabet, each queue built by a random history; nine ordered pairs per triple, six operators.",
     rule="a case is a triple of queues with random contents (length 0..4 over 1..3 pointers) and histories; distinct: different contents",
     require={"equal_pairs": 100, "less_pairs": 100, "greater_pairs": 100})
def parts(f, n): return ["%s -DPARTS=%d -DPART=%d" % (f, n, i) for i in range(n)]
JT = "runtime monitoring: "
prop("J01", src=parts("json_rt.cpp", 8),
     technique=JT + "round trip of generated values of 57 types, compared by an independent model, under ASan/UBSan with allocation balance",
     level_note="Random values of every supported kind of type and nesting, all 256 characters, diagnostics; values beyond those drawn are not explored.",
     rule="a case is one value of one type; distinct: different serialized text", require={"types": 57})
prop("J04", src=parts("json_rt.cpp", 8),
     technique=JT + "serialized text read back by a strict RFC 8259 reader and compared with the value, under ASan/UBSan",
     level_note="Random values of 57 types; the reader is independent of the library.",
     rule="a case is one value of one type; distinct: different serialized text", require={"types": 57, "compound_documents": 1000, "scalar_documents": 1000, "with_nulls": 500})
prop("J02", src=parts("json_fuzz.cpp", 8), alarm=60,
     technique=JT + "hostile documents (arbitrary, mutated, truncated, deeply nested) for 57 target types under ASan/UBSan with allocation balance; answers compared between repeated and fresh parsers",
     level_note="All strings up to length 3 (4 after a quote or bracket; thorough: 4) over 26 characters for 9 targets, plus random hostile documents; not every document is explored. Allocation balance is not asked where rejected compounds hold raw pointers.",
     rule="a case is one document for one target type, parsed three times; distinct: different documents", require={"accepted": 2000, "rejected": 20000, "short_strings": 10000, "types": 50})
prop("J03", src=parts("json_accept.cpp", 8),
     technique=JT + "documents with random spelling, layout, order and unknown fields from an independent encoder must denote the value; mutants known to be malformed or unrepresentable must be rejected; under ASan/UBSan",
     level_note="Random documents of 57 types; eight classes of defects, each with a minimum number of observations.",
     rule="a case is one document of one type; distinct: different documents",
     require={"types": 57, "with_unknown_fields": 500, "with_shuffled_fields": 1000, "with_index_keys": 500, "truncated": 2000, "trailing_data": 2000, "unrepresentable": 2000, "duplicate_key": 500, "garbage": 2000, "missing_delimiter": 2000, "surplus_delimiter": 2000, "wrong_delimiter": 2000})
prop("J05", src=["json_named.cpp"],
     technique=JT + "named documents of four registered types from an independent encoder, name anywhere and also in nested values; returned type and contents, and text serialized through the base class, compared with the model; under ASan/UBSan",
     level_note="Random documents, eight identifying keys; missing, unknown, non-string names and truncated documents must be refused with an error.",
     rule="a case is one document; distinct: different documents",
     require={"types": 4, "dispatched": 5000, "serialized": 5000, "missing": 1000, "unknown": 1000, "not_a_string": 1000, "broken": 1000, "nested_names": 1000, "name_positions": 20})
prop("J06", src=["json_index.cpp"],
     technique=JT + "index-keyed arrays: all key tuples up to length 5 and random permutations, gaps, repetitions and illegal keys against a model, for vectors and owned arrays, under ASan/UBSan",
     level_note="Key tuples of length n over 0..n, n up to 5, exhaustively; others randomly up to 300 elements.",
     rule="a case is one document (J06.exhaustive: all key tuples of one length); distinct: different documents",
     require={"key_tuples": 8477, "permutations": 3000, "sequences": 2000, "gap": 500, "repeated": 2000, "negative": 1000, "illegal_index": 1000})
prop("J07", src=parts("json_arity.cpp", 8),
     technique=JT + "records of all 1..30 fields, sub-object and top-level, every field written, read, serialized and parsed alone and together, under ASan/UBSan",
     level_note="All 60 record types of the macros and every field position; values are random.",
     rule="a case is one record type with random values; distinct: different serialized text",
     require={"records": 60, "declared": 4, "fields": 900, "root_objects": 1000})
prop("J08", src=parts("json_arity.cpp", 8), prefixes=["J07"], generated_macros=True,
     technique=JT + "the generator of the declaration macros is run and its output replaces the committed header; then the workload of J07 observes every record type, under ASan/UBSan",
     level_note="All 60 record types of the generated macros and every field position; values are random.",
     rule="a case is one record type with random values; distinct: different serialized text",
     require={"records": 60, "declared": 4, "fields": 900, "root_objects": 1000})
prop("J09", src=parts("json_oom.cpp", 8),
     technique=JT + "every allocation in turn fails (alone, or with all later ones) while generated values of 57 types are parsed and serialized; outcome, destination and later use are observed, under ASan/UBSan with allocation balance",
     level_note="Random values of every supported kind of type; the first 40 allocations of each operation fail one by one, later ones are sampled.",
     rule="a case is one value of one type with all its failing allocations; distinct: different serialized text",
     require={"types": 57, "failed_allocations": 10000, "failed_in_unparse": 3000, "malformed": 10000})
prop("J10", src=["json_ext.cpp"],
     technique=JT + "histories of moves, stored and restored positions over generated token lists compared with a model after every step; arbitrary bytes against invariants; skipping and counting against an independent judge of token lists, under ASan/UBSan with allocation balance",
     level_note="Lists up to 20 tokens, histories up to 64 steps, nesting up to 9 levels, documents of up to 40 arbitrary bytes.",
     rule="a case is one document with one history; distinct: different document",
     require={"tokens": 50000, "restored": 5000, "set_positions": 5000, "kinds": 12, "skipped": 1000, "not_skipped": 1000, "counted": 500, "not_counted": 1000, "index_objects": 1000, "refused_objects": 500, "unfinished": 1000})
prop("J11", src=["json_ext.cpp"],
     technique=JT + "user-defined conversions of types and of single fields which record each call; places, values and outcomes compared with generated documents, failing and throwing calls included, under ASan/UBSan with allocation balance",
     level_note="A dynamic value, alternatives tried from a stored position, six fields of which four have conversions or names of their own; random documents up to 7 levels.",
     rule="a case is one document; distinct: different document",
     require={"keys_and_elements": 20000, "failed_conversions": 5000, "values": 2000, "not_values": 2000, "alternatives": 5, "alternatives_tried": 10000, "converted": 2000, "rejected": 500})
prop("F01", src=["oom.cpp"],
     technique=JT + "allocations fail at chosen points of histories over queues, diagnostics, binomial systems and arrays; every object is compared with its model after every operation, under ASan/UBSan with allocation balance",
     level_note="Random histories; one allocation or all later ones fail at any of the first allocations of an operation.",
     rule="a case is one history; distinct: different history",
     require={"failed_pushes": 1000, "failed_copies": 300, "failed_assignments": 300, "failed_insertions": 1000, "failed_equations": 1000, "failed_solutions": 200, "failed_arrays": 5000})
prop("R03", src=["redirect.cpp -DWITH_OOM"], quiet_process=True, libs=["-Wl," + ",".join("--wrap=" + f for f in ("fopen", "fclose", "dup2", "ftell", "fseek", "fflush", "fread", "fgetc"))],
     technique=JT + "allocations fail at chosen points of histories of a redirected descriptor, also together with a failing C library call; descriptors, the file on disk and later answers are compared with a model, under ASan/UBSan with allocation balance",
     level_note="Random histories up to 15 steps; every allocation of the constructor fails in turn, one of the first allocations of the other operations.",
     rule="a case is one history on one redirected descriptor; distinct: different history and contents",
     require={"failed_constructors": 2000, "failed_twice": 2000, "failed_diffs": 1000, "active": 4000, "failed_reports": 200})
NOT_APPLICABLE = {}
prop("D01", src=["diagnostic.cpp"],
     technique=JT + "histories over a pool of containers against a model of exact message texts, six iteration orders after every operation, under ASan/UBSan with allocation balance",
     level_note="Random histories over three containers, messages up to 200000 bytes, codes and positions up to the limits, messages that cannot be formatted.",
     rule="a case is one history over three containers; distinct: different history and messages",
     require={"inserted": 5000, "internal_errors": 300, "clears": 300, "swaps": 300, "long_messages": 300})
prop("R01", src=["redirect.cpp"], quiet_process=True, libs=["-Wl," + ",".join("--wrap=" + f for f in ("fopen", "fclose", "dup2", "ftell", "fseek", "fflush", "fread", "fgetc"))],
     technique=JT + "histories of writes and questions on redirected descriptors against a model of the file and against the file on disk, under ASan/UBSan",
     level_note="Random histories up to 25 steps, all byte values, up to 100000 bytes per write, direct and stream writes, rewrite and append.",
     rule="a case is one history on one redirected descriptor; distinct: different history and contents",
     require={"nonempty_diffs": 2000, "questions": 1000, "remembered": 1000, "resets": 1000, "writes": 2000})
prop("R02", src=["redirect.cpp"], quiet_process=True, libs=["-Wl," + ",".join("--wrap=" + f for f in ("fopen", "fclose", "dup2", "ftell", "fseek", "fflush", "fread", "fgetc"))],
     technique=JT + "histories over a pool of redirection objects with failing constructions and moves; open descriptors, their targets, files and answers compared with a model, under ASan/UBSan with allocation balance",
     level_note="Random histories over four objects, three descriptors and four files; failures: missing directory, directory, empty name, bad descriptor, descriptor limit, and faults injected into the C library calls.",
     rule="a case is one history over the pool; distinct: different history",
     require={"redirections": 2000, "failures": 1000, "move_constructions": 1000, "move_assignments": 1000, "self_moves": 200, "empty_objects": 10000, "failed_objects": 2000, "active_objects": 5000})
SOCK = dict(src=["socket.cpp", "$REPO/lib/Socket/CSocket/CSocket.cpp"], quiet_process=True, alarm=120, flavours=["asan", "tsan"], scale={"tsan": 0.5},
            libs=["-ldl", "-Wl," + ",".join("--wrap=" + f for f in ("recv", "send", "accept", "close", "nanosleep", "socket", "setsockopt", "bind", "listen", "getsockname", "gethostbyname"))])
SN = " System calls of the server are disturbed (short counts, EINTR, failed accept, delays) in part of the cases; the same workload also runs under ThreadSanitizer."
prop("S01", technique=JT + "offline checker over the event log of a real server with loopback clients: delivered pieces of every listener against the bytes sent, under ASan/UBSan and TSan",
     level_note="Random conversations of 1..4 concurrent clients, seven buffer sizes, streams up to 180000 bytes with zero bytes, random chunking." + SN,
     rule="a case is a conversation of 1..4 clients with one server; distinct: different conversations", require={"connections": 800, "pieces": 10000, "buffers": 7, "disturbed": 100}, **SOCK)
prop("S02", technique=JT + "offline checker over the event log of a real server with loopback clients: what each client reads against what was sent to it, clients that vanish while answered, under ASan/UBSan and TSan",
     level_note="Random conversations, messages up to 6 MB, slow readers, clients that reset or close in the middle of an answer." + SN,
     rule="a case is a conversation; distinct: different conversations", require={"connections": 600, "sends": 3000, "peers_gone": 80, "send_errors": 300, "disturbed": 80}, **SOCK)
prop("S03", technique=JT + "online recording and offline checking of every connection's event sequence against the specified grammar and addresses, under ASan/UBSan and TSan",
     level_note="Random conversations of 1..4 concurrent clients that finish, close or reset, up to three listeners of each kind, closing of a descriptor that reports an error." + SN,
     rule="a case is a conversation; distinct: different conversations", require={"connections": 800, "orderly_ends": 400, "resets": 150, "event_sequences": 400, "failed_closes": 100}, **SOCK)
prop("S04", technique=JT + "hostile crowds of loopback clients; the server has to go on serving, keep to its limit and give back descriptors, threads and memory, under ASan/UBSan and TSan",
     level_note="Waves of up to 17 clients of eight kinds, limits 1..4 with more clients than allowed, 2..3 servers which serve as many clients as each may, 300 connections in a row, threads that cannot be launched, addresses that cannot be got, descriptors above 1024." + SN,
     rule="a case is a sequence of waves of clients (S04.hostile), a crowd at a limited server (S04.limit), clients of several servers (S04.several) or 300 connections (S04.churn); distinct: different crowds",
     require={"served": 500, "without_thread": 60, "without_address": 60, "limit_reached": 40, "waiting_clients": 150, "churned": 900, "full_servers": 100, "served_at_once": 200}, **SOCK)
prop("S05", technique=JT + "servers started at addresses that cannot be resolved or bound and with failing system calls; reported events, addresses and open descriptors checked, under ASan/UBSan and TSan",
     level_note="Seven unresolvable names, busy ports, foreign addresses, each system call of the start failing, closing included; five kinds of address that work; 2..8 servers started at the same time with delays between the steps of their starts.",
     rule="a case is one start of a server; distinct: different requests", require={"unresolved": 50, "not_bound": 80, "faults": 150, "failed_start_closes": 60, "started": 12, "started_together": 200, "bound_together": 120}, **SOCK)
prop("S06", technique=JT + "connections whose listeners add listeners or fail at chosen points next to calm ones; offline checker over the logs of both ends, descriptors and threads, under ASan/UBSan and TSan",
     level_note="Up to 12 listeners of each kind added while data arrive; failures while a server is created, at the first pieces and in listeners of the end, by five kinds of exceptions." + SN,
     rule="a case is a set of concurrent connections; distinct: different listeners, failures and data",
     require={"added_listeners": 700, "added_closed_listeners": 500, "gone_in_listener": 60, "gone_before_listeners": 60, "failed_creations": 150, "failed_listeners": 120, "failed_closed_listeners": 100, "calm_connections": 400}, **SOCK)
prop("S07", technique=JT + "allocations fail in the thread which accepts clients and in those which serve them; offline checker over what the server reports, what its clients get, descriptors and threads, under ASan/UBSan and TSan",
     level_note="1..5 concurrent clients; one allocation or all later ones fail, any of the first 8 while a connection is taken and of the first 40 while it is served; allocations inside of the C library do not fail.",
     rule="a case is a set of concurrent connections; distinct: different failures, listeners and data",
     require={"failed_taking": 100, "failed_serving": 300, "ended_while_served": 200, "ended_before": 60, "not_taken": 60, "not_concerned": 300},
     **dict(SOCK, src=["socket_oom.cpp", SOCK["src"][1]], libs=["-ldl", "-Wl,--wrap=accept"]))
INTR = dict(src=["intrusive.cpp", "$REPO/lib/Socket/CSocket/CSocket.cpp"], quiet_process=True, alarm=60, flavours=["asan", "tsan"], scale={"tsan": 0.5},
            libs=["-Wl," + ",".join("--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "_ZNSt18condition_variable10notify_oneEv"))])
IN = " Delays are injected before locks and notifications and after unlocks; the same workload runs under ASan/UBSan and under ThreadSanitizer."
prop("I01", technique=JT + "offline checker over the log of requests, responses and hand-overs of a connection on a recording socket, with injected delays, under ASan/UBSan and TSan",
     level_note="Random request sequences up to 30, seven delimiters, random joining into pieces." + IN,
     rule="a case is one conversation; distinct: different delimiter and pieces", require={"requests": 10000, "pieces": 5000}, **INTR)
prop("I02", technique=JT + "offline checker over the log of a connection whose handler gives up after a random number of answers in six ways, with injected delays, under ASan/UBSan and TSan",
     level_note="Random request sequences up to 14, the hand-over races with receipt and close." + IN,
     rule="a case is one conversation; distinct: different pieces, number of answers and way to give up", require={"rejected": 3000, "answered": 3000, "told_closed": 200, "given_up": 1000, "assigned": 200, "ways": 6}, **INTR)
prop("I03", technique=JT + "ThreadSanitizer and ASan over short-lived and moved connections with injected delays, on recording sockets and on the real C socket; stuck threads, leaks and wrong event orders are reported",
     level_note="Random schedules; the event orders seen are counted, not enumerated." + IN,
     rule="a case is 1..3 concurrent short connections, or 1..4 clients of the real server; distinct: different cases", require={"connections": 4000, "socket_connections": 500, "delays": 2000, "event_orders": 8, "interleavings": 2000}, **INTR)
prop("I04", technique=JT + "offline checker over the log of a connection whose handler throws, whose socket cannot send, whose thread, arguments or memory are not available, with injected delays, under ASan/UBSan and TSan with allocation balance",
     level_note="Random request sequences up to 14, failures of five exception types at random requests; one allocation or all later ones fail at any of the first allocations of an operation." + IN,
     rule="a case is one conversation; distinct: different pieces and failures", require={"failed_evaluations": 3000, "failed_sends": 300, "failed_threads": 500, "failed_arguments": 500, "failed_allocations_at_start": 500, "failed_receipts": 500, "failed_answers": 500, "rejected_without_handler": 500},
     **dict(INTR, src=["intrusive.cpp -DWITH_FAILURES", INTR["src"][1]]))
prop("M01", src=["marray.cpp"],
     technique=JT + "every index tuple of arrays with random extents against the row-major address and a model of the contents, under ASan/UBSan with allocation balance",
     level_note="2..6 dimensions, four element types, both notations, up to 3000 elements per array, extents 0 and 1 included, sparsely probed arrays of more than 2^32 elements in 2..4 dimensions, and extents whose product exceeds 64 bits; 1 dimension is not supported by the library.",
     rule="a case is one array; distinct: different type and extents", require={"elements": 100000, "arrays": 2000, "empty_arrays": 50, "dimensions": 5, "huge_arrays": 20, "too_large": 800, "empty_with_large_extents": 100})
prop("M02", src=["marray.cpp"],
     technique=JT + "histories of constructions, moves and assignments over a pool of arrays with counted elements, under ASan/UBSan with allocation balance",
     level_note="Random histories up to 22 operations over four arrays, 2..6 dimensions.",
     rule="a case is one history; distinct: different histories", require={"assignments": 3000, "constructions": 1000, "self_moves": 1000})
prop("C01", src=["chain.cpp"],
     technique=JT + "histories of splices and merges against a model of all links, nodes in up to three chains, under ASan/UBSan; every operation in every state of up to four nodes",
     level_note="Random histories up to 41 operations on up to 10 nodes; all states and operations of 1..4 nodes. Whether the former neighbours of a spliced node are joined or parted is left open, but has to be uniform.",
     rule="a case is one history; C01.exhaustive: one operation in one state; distinct: different histories / (state, operation)",
     require={"spliceNext": 5000, "splicePrev": 5000, "mergeNext": 5000, "mergePrev": 5000, "cuts": 3000, "by_iterator": 10000, "exhaustive_operations": 1500, "link_states": 1000})
prop("C02", src=["chain.cpp"],
     technique=JT + "iteration in both directions from every node with four iterator types against a model of the links, under ASan/UBSan",
     level_note="Random chains of up to 10 nodes; every pair of nodes is compared at every step.",
     rule="a case is one history with iterations in between; distinct: different histories", require={"steps": 200000, "link_states": 1000})
prop("T01", src=parts("trait01.cpp", 6),
     technique=JT + "histories of set, unset and queries over eight declarations of traits against a model read off the declarations, under ASan/UBSan",
     level_note="Eight declarations with 1 to 64 traits, all pairs of traits in the small ones; random histories up to 40 operations, every query after every operation.",
     rule="a case is one history over one declaration; distinct: different histories", require={"states": 20000, "displaced": 2000, "set_both": 1000, "unset_group": 1000, "distinct_states": 300, "traits": 90})
prop("T02", src=parts("trait02.cpp", 4),
     technique=JT + "histories over pools of trait sets with counted descriptions against a model of what is attached and alive, under ASan/UBSan with allocation balance",
     level_note="Random histories up to 31 operations on three sets of five kinds; descriptions of default and of own types, two kinds of underlying maps.",
     rule="a case is one history over three sets; distinct: different histories",
     require={"attached": 5000, "replaced": 300, "displaced": 300, "unset_described": 200, "released": 200, "released_nothing": 500, "move_assigned": 500, "move_constructed": 500, "overwritten": 300, "same": 500, "self_move": 100, "from_descriptor": 1000})
prop("T03", src=parts("trait03.cpp", 4),
     technique=JT + "transfers between descriptors and sets of different declarations, maps of traits and distribution into them against models read off the declarations, under ASan/UBSan with allocation balance",
     level_note="Eight pairs of declarations with descriptors and sets on both sides, random contents; traits of the source that exclude each other in the target are checked for conflicts only.",
     rule="a case is one transfer, one map history or one distribution; distinct: different contents (transfers: that change the target)",
     require={"updates": 1500, "sets": 1500, "named": 500, "maps": 500, "values": 10000, "distributed": 1500, "conflicting_sources": 50})
prop("P01", src=parts("cell.cpp", 2),
     technique=JT + "histories of writes, copies and visits of static maps against a model of their contents, addresses and order, under ASan/UBSan with allocation balance",
     level_note="Sixteen declarations with 0 to 10 keys of ten types; random values.",
     rule="a case is one map with random contents; distinct: different declaration and contents",
     require={"values": 50000, "maps": 1000, "type_maps": 500, "copies": 500, "copied_arguments": 300, "moved_arguments": 300})
prop("P02", src=parts("cell.cpp", 2),
     technique=JT + "transfers between maps with counted values; copies, moves, targets and sources against the set of common keys, under ASan/UBSan with allocation balance",
     level_note="Twelve pairs of key lists, four functors; all 16 sets of owned pointers.",
     rule="a case is one transfer or one initialisation and clearing; distinct: different contents and functor",
     require={"copies": 500, "moves": 500, "common_keys": 1000, "cleared": 100})
prop("P04", src=parts("typelist.cpp", 3),
     technique=JT + "results of every type-list operation, observed at run time for all short lists, against the same operation on sequences",
     level_note="All 121 lists of up to four elements over three types, all 520 pairs of up to three and two elements, 113 divisions of up to six keys into two maps; the types are computed by the compiler, the oracle compares what the program observes of them.",
     rule="a case is one list, one pair of lists or one division of keys into two maps; distinct: different lists",
     require={"lists": 121, "pairs": 520, "collections": 100})
prop("P03", src=["tagged.cpp"],
     technique=JT + "histories over tagged tuples and pairs; every tag and alias against positional access and a model of the contents, visits and type queries observed at run time, under ASan/UBSan with allocation balance",
     level_note="Ten declarations with up to seven elements and three aliases; random contents.",
     rule="a case is one history of one tuple or pair; distinct: different contents",
     require={"tuples": 1500, "pairs": 800, "accesses": 50000, "copies": 500, "convertible": 200, "queries": 30})
prop("U01", src=["utility.cpp"],
     technique=JT + "digit counts, masks, bit output, binary literals and queries to lists of types against 128-bit arithmetic",
     level_note="All widths of masks of eight integer types; random and boundary values, products of powers of random bases; 38 literals of up to 64 digits.",
     rule="a case is one value and base, one value to print, one text or the masks of one type; distinct: different values",
     require={"values": 20000, "with_zeros": 3000, "masks": 248, "printed": 8000, "literals": 30, "queries": 15, "quoted": 200})
prop("U02", src=["utility.cpp"],
     technique=JT + "packing of pairs into heap blocks of exact size, restoration compared with the source, under ASan/UBSan",
     level_note="Twelve combinations of types; values of random widths, boundaries of the half of a target.",
     rule="a case is one pair; distinct: different pairs",
     require={"packed": 10000, "refused": 5000, "restored": 5000})
prop("U03", src=["utility.cpp"],
     technique=JT + "histories over pools of wrapped values with a check of every known pointer after each step; adaptors, tuples and owning pointers against models, under ASan/UBSan",
     level_note="Pools of up to 25 steps over three types of values, with reallocation, erase, swap and rotation.",
     rule="a case is one history, one adapted collection, one set of constructor arguments or one tuple; distinct: different contents",
     require={"pools": 1500, "pointers_checked": 50000, "adaptors": 800, "pointers": 800, "tuples": 800})
prop("E01", src=["equation.cpp"],
     technique=JT + "random systems solved by the library, general solution instantiated and compared with the integer lattice of solutions of an independent solver, under ASan/UBSan",
     level_note="Up to six variables and five equations: chains, stars, trees, cycles; zero coefficients, repeated variables; guards and computable terms included. The oracle computes a column echelon form with 128-bit integers.",
     rule="a case is one system; distinct: different systems",
     require={"solvable": 3000, "unsolvable": 500, "instances": 30000, "solutions_found": 30000, "reversed": 200, "shifted": 1000, "logged": 500})
prop("E02", src=["equation.cpp"],
     technique=JT + "random guarded systems instantiated by the library and by a model, under ASan/UBSan",
     level_note="Up to eight equations with up to three guards, two inverse guards and four computable terms, over four combinations of types.",
     rule="a case is one system with a valuation; distinct: different systems",
     require={"systems": 3000, "on": 3000, "off": 3000, "empty": 1})
prop("E03", src=["equation.cpp"],
     technique=JT + "results of the extended Euclid function against 128-bit arithmetic, under UBSan",
     level_note="Random and boundary pairs, multiples, powers of two and Fibonacci pairs of three integer types.",
     rule="a case is one pair; distinct: different pairs",
     require={"pairs": 20000, "zero": 500, "negative": 5000, "positive": 3000})

NODE = dict(src=["node/server.cpp", "$REPO/lib/Socket/NodeJSSocket/NodeJSSocket.cpp"], node=True, cxxflags=["-fno-sanitize=vptr"], flavours_thorough=["asan", "opt"], alarm=60)
prop("N01", technique=JT + "bytes given to a connection and messages sent by it, compared with what listeners and the client observe, in the real addon under Node.js with ASan/UBSan",
     level_note="Random chunks (zero bytes, bytes which are not UTF-8, views into larger buffers) up to 200 KB, random texts up to U+10FFFF, events given directly and by sockets of the loopback network.",
     rule="a case is a history of chunks or messages of one connection, or several clients of a network server; distinct: different histories",
     require={"chunks_with_zero": 500, "texts_with_zero": 500, "texts_not_ascii": 500, "network_clients": 50}, **NODE)
prop("N02", technique=JT + "event histories over several connections, wrong arguments and the intrusive connection, against a model of listeners, in the real addon under Node.js with ASan/UBSan",
     level_note="Random histories up to 32 events over up to five connections; every kind of wrong argument of connect(), data and close events.",
     rule="a case is a history of events; distinct: different histories",
     require={"connections": 2000, "several_connections": 500, "closed": 500, "wrong_arguments": 100, "wrong_data": 100, "wrong_close": 100, "wrong_receiver": 100, "intrusive_connections": 300, "answers": 500}, **NODE)
prop("N03", technique=JT + "forced garbage collection at random points of event histories under ASan; weak references, counted listeners and heap balance after connections are closed, in the real addon under Node.js",
     level_note="Full and minor collections inside and between listeners; batches of 24 connections in five kinds of use; 400 messages per message case.",
     rule="a case is a history of events with collections, a batch of closed connections, or a series of messages; distinct: different histories",
     require={"data_under_gc": 500, "closed_under_gc": 500, "released": 500, "release_kinds": 5, "started_again": 100, "messages": 2000}, **NODE)

prop("L01", src=["legacy.cpp -DPART=0"],
     technique=JT + "decimal texts of integers compared with a model; bounded copies in heap blocks of exact size, under ASan/UBSan",
     level_note="Random and boundary integers, both kinds of characters; copies around the size of the target.",
     rule="a case is one integer or one copy; distinct: different integers / contents",
     require={"negative": 20000, "non_negative": 20000, "least": 100, "refused": 1000, "copied": 1000})
prop("L02", src=parts("legacy_cell.cpp", 3),
     technique=JT + "histories over static collections of cells against a model of keys and values; copies between collections, owned objects counted, under ASan/UBSan",
     level_note="Thirteen collections of up to eight cells with values of eight types, fourteen pairs of them, all 100 macros; values are random.",
     rule="a case is one collection, one pair or one set of owned objects; distinct: different contents",
     require={"values": 20000, "copies_to": 1000, "copies_from": 1000, "common_keys": 1000, "cleared": 1000, "macros": 100, "merges": 9})
prop("L03", src=["legacy_error.cpp"],
     technique=JT + "codes, types and texts of declared errors and thrown exceptions compared with a model of nested declarations, under ASan/UBSan",
     level_note="Six applications, errors nested up to five levels, every error seen from every application which uses it; texts of casts are random.",
     rule="a case is one error; distinct: different errors", 
     require={"absolute_codes": 5000, "errors": 5000, "flat": 1000, "nested": 1000, "counts": 13, "codes": 96})
prop("L04", src=["legacy.cpp -DPART=1"],
     technique=JT + "histories of assignments of values which may be undefined, every state and all comparisons after each step against a model, under ASan/UBSan",
     level_note="Up to 23 operations over three values of six types; all twelve ordered comparisons between all pairs.",
     rule="a case is one history; distinct: different histories",
     require={"states": 50000, "equal": 10000, "different": 10000, "undefined": 10000, "refused": 1000, "assigned": 1000, "texts": 1000})
prop("L05", src=["legacy.cpp -DPART=2"],
     technique=JT + "values and traversal order of static trees compared with a model; truth tables of conditions, under ASan/UBSan",
     level_note="Eight shapes of trees of up to seven nodes with values of four types; values and sequences of writes are random.",
     rule="a case is one tree with values; distinct: different contents",
     require={"values": 20000, "nodes": 10000, "trees": 4000, "converted": 400, "references": 1000, "conditions": 60})
# Distinct objects in distinct threads: the workloads of the other properties, several at once.
def at_once(*src): return [x + " -DVP_THREADS=4 -DVP_NO_MAIN" for y in src for x in ([y] if isinstance(y, str) else y)]
prop("X01", src=["shared.cpp -DVP_THREADS=4"] + at_once("queue.cpp", "diagnostic.cpp", "chain.cpp", "marray.cpp", parts("trait01.cpp", 6)[:2], parts("trait02.cpp", 4)[:2], parts("trait03.cpp", 4)[:2],
     parts("cell.cpp", 2), "tagged.cpp", parts("typelist.cpp", 3)[:1], "utility.cpp", "equation.cpp", "legacy.cpp -DPART=0", "legacy.cpp -DPART=1", "legacy.cpp -DPART=2", parts("legacy_cell.cpp", 3), "legacy_error.cpp"),
     prefixes=[""], flavours=["tsan"], flavours_thorough=["tsan", "asan", "opt"], width=4, shards=4, alarm=60,
     interference=True, technique=JT + "the workloads of the single-threaded properties, each case in four threads at once with its own oracles, and constant objects read by four threads; g++ ThreadSanitizer reports unordered accesses, and a failure counts if the case passes in one thread",
     level_note="Cases of 26 other properties and shared constant objects, drawn as there; the threads of a round start together and nothing else orders them, so the race detector judges all pairs of accesses, not only those which really overlapped.",
     rule="a case is one case of a workload in one of four threads (X01.*: one constant object read by four threads); distinct: different inputs",
     require={"rounds": 30000, "overlapping_pairs": 2000, "thread_orders": 20, "shared_reads": 20000})
prop("X02", src=["shared_json.cpp -DVP_THREADS=4 -DPARTS=4 -DPART=0"] + at_once(parts("shared_json.cpp", 4)[1:], parts("json_rt.cpp", 8), "json_index.cpp", "json_named.cpp", "json_ext.cpp"),
     prefixes=[""], flavours=["tsan"], flavours_thorough=["tsan", "asan", "opt"], width=4, shards=4, alarm=60,
     interference=True, technique=JT + "the workloads of round trips, named objects, arrays and user-defined conversions, each case in four threads at once with its own oracles, and constant documents and objects read by four threads; g++ ThreadSanitizer reports unordered accesses, and a failure counts if the case passes in one thread",
     level_note="All 57 types of the JSON workloads, documents also damaged; the threads of a round start together and nothing else orders them, so the race detector judges all pairs of accesses, not only those which really overlapped.",
     rule="a case is one case of a workload in one of four threads (X02.*: one constant document or object read by four threads); distinct: different documents",
     require={"rounds": 20000, "overlapping_pairs": 2000, "thread_orders": 20, "shared_documents": 8000, "shared_objects": 8000, "rejected_documents": 400, "types": 57})

prop("J12", src=["json_locale.cpp -DPARTS=4 -DPART=0"] + ["json_locale.cpp -DVP_NO_MAIN -DPARTS=4 -DPART=%d" % i for i in range(1, 4)],
     locales=["de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "ru_RU.KOI8-R", "ja_JP.SHIFT_JIS", "ps_AF.UTF-8", "fr_FR.UTF-8"],
     technique=JT + "differential: texts, values, errors and tokens obtained under a locale compared with those in the C locale, under ASan/UBSan",
     level_note="Six locales of the C library made by localedef, set by setlocale() and as the global C++ locale, and two C++ locales with other punctuation and classes of characters; values of 57 types, documents also damaged with characters of these locales.",
     rule="a case is one document, object, text or number under one or two locales; distinct: different inputs and locales",
     require={"locales": 14, "types": 57, "accepted_documents": 1000, "rejected_documents": 4000, "serialized_objects": 4000, "texts": 15000, "numbers": 15000, "other_points": 10000})

# Work is counted, see the harness.
prop("W01", src=["work.cpp"], flavours=["work"], budget=150, budget_thorough=400,
     technique=JT + "executed basic blocks (-fsanitize-coverage=trace-pc), bytes handled by the memory functions of the C library and bytes allocated are counted while the real code works on data of size N and 16 N, and the two counts are compared",
     level_note="N is 1000..2500 (thorough: up to 6000), up to 16 times more where the data is text. 'In proportion' allows 32 times more work for 16 times more data, so a logarithm and growth of storage are not reported, and of work that grows with the square only what makes up 7% at size N is. Work inside of the C library other than the memory functions is not seen. Solution of systems of equations is not covered: its cost depends on coefficients.",
     rule="a case is one scenario with random data at two sizes; distinct: different scenarios and sizes",
     require={"measurements": 1200, "scenarios": 130, "types": 22, "parsed": 500, "rejected": 100, "serialized": 100, "requests": 10000, "outputs": 30})

prop("W02", src=["wait.cpp", "$REPO/lib/Socket/CSocket/CSocket.cpp"], flavours=["work"], flavours_thorough=["work"], quiet_process=True, alarm=60, budget=100, libs=["-Wl,--wrap=nanosleep"],
     technique=JT + "basic blocks executed by all threads (-fsanitize-coverage=trace-pc) are counted while real servers, connections and handlers wait for something that does not happen; then it happens and they have to go on",
     level_note="Sixteen situations with up to six clients or connections; 120 ms each, in which 2500 basic blocks are allowed (a thread which does not sleep executes at least tens of thousands). Only waiting inside of the library is seen, not inside of system calls.",
     rule="a case is one situation; distinct: different situations and numbers of clients",
     require={"measurements": 96, "scenarios": 16, "woken": 96})

# All headers together: one unit per header which comes first, made in different ways.
HEADERS = ("CSocket Chain Diagnostic Equation IntrusiveConnection IteratorDataAdaptor Json RedirectIO Socket ValuePtrWrapper cell convertible_pair "
           "marray marray_f tagged trait transparent_queue tuple_utils utility").split()
OLD_HEADERS = "cell_legacy declaration exception text tree value".split()
WAYS = ["", " @clang", " @ndebug", " @clang @ndebug"]
prop("H01", src=["headers_main.cpp"] + ["headers.cpp -DVP_FIRST=<bcl/%s.h>%s" % (h, WAYS[i % 4]) for i, h in enumerate(HEADERS)] +
     ["headers.cpp -DVP_FIRST=<bcl/legacy/%s.h>%s" % (h, WAYS[i % 4]) for i, h in enumerate(OLD_HEADERS)] + ["headers.cpp -DVP_BACKWARDS @ndebug"],
     flavours=["mixed"], flavours_thorough=["mixed", "asan", "clang-asan"], bare=True, cxxflags=["-DBCL_LEGACY", "-DVP_LEGACY"],
     technique=JT + "units which include the headers in different orders, made by two compilers and with and without assertions, work on common objects; the contents are compared with those of objects on which one unit worked, identities and sizes of entities with each other",
     level_note="26 units (each header first, one with all of them in another order); 14 kinds of objects; up to 8 changes, each read in another unit. An object and its twin see the same random history.",
     rule="an execution is one object handed over between units, or the entities of one unit; distinct: different kinds and contents",
     require={"handed_over": 150000, "attributes": 150, "entities": 1000, "units": 26, "kinds": 14, "pairs_of_units": 600})
